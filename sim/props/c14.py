"""Arguments are never modified, also when calls raise or are interrupted."""
import random
from forked import np
import hist
from hist import HistProp, EXC, snap, snapdiff, shrink_list
from core import Outcome, digest

LAYOUTS = ("asis", "asis", "F", "stride", "reverse", "offset", "readonly")


def relayout(o, l, depth=0):
    """The same value in another memory layout."""
    if isinstance(o, np.ndarray) and o.ndim >= 1 and o.size:
        if l == "F":
            return np.asfortranarray(o)
        if l == "readonly":
            o = o.copy(order="K")
            o.setflags(write=False)
            return o
        if l == "stride":
            B = np.full(tuple(2 * k for k in o.shape), 7, dtype=o.dtype)
            s = tuple(slice(None, None, 2) for _ in o.shape)
        elif l == "offset":
            B = np.full(tuple(k + 2 for k in o.shape), 7, dtype=o.dtype)
            s = tuple(slice(1, -1) for _ in o.shape)
        elif l == "reverse":
            B = np.zeros_like(o, order="C")
            s = tuple(slice(None, None, -1) for _ in o.shape)
        else:
            return o
        B[s] = o
        return B[s]
    if isinstance(o, list) and depth == 0:
        return o
    if isinstance(o, tuple):
        return tuple(relayout(x, l, depth + 1) for x in o)
    if isinstance(o, dict):
        return {k: relayout(x, l, depth + 1) for k, x in o.items()}
    return o


class Prop(HistProp):
    ID = "C14"
    ORACLE = False
    RULE = ("one run = 12 calls with seeded arguments of every kind, each array also as Fortran-ordered, strided, reversed, offset "
            "or read-only view, a third of the calls struck by an exception at a random source line or call inside the package; all "
            "mutable objects reachable from the arguments (and the buffers behind views) compared bit for bit; non-trivial = "
            "a call with at least one mutable argument; distinct = distinct (call, variant, layout, fault site)")
    PROBES = ["faults_fired", "mutable", "raised"]

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        ops = []
        for _ in range(12):
            c = self.vary(rng, self.pick(rng, self.names) + [rng.getrandbits(40)], 0.3)
            lay = rng.choice(LAYOUTS) if group == "py" else "asis"
            f = None
            if rng.random() < 0.35:
                f = [max(1, int(10 ** rng.uniform(0, 2.7))), rng.choice(EXC)]
            ops.append([c, lay, f])
        return dict(ops=ops)

    def run_in_child(self, group, case):
        st = dict(faults_fired=0, mutable=0, raised=0, calls=0, returned=0)
        keys, log = [], []
        bad = None
        for c, lay, f in case["ops"]:
            a, kw = self.args(c)
            a, kw = relayout(a, lay), relayout(kw, lay)
            before = snap((a, kw))
            self.seed_rng(self.rs_of(c))
            fired = None
            if f:
                r, fired = self.faulted(c, f[0], f[1], (a, kw))
                st["faults_fired"] += fired is not None
            else:
                r = self.raw(c, (a, kw))
            st["calls"] += 1
            st["raised" if r[0] == "exc" else "returned"] += 1
            if before:
                st["mutable"] += 1
                st["layout_" + lay] = st.get("layout_" + lay, 0) + 1
                keys.append((c[0], c[1], c[3:], lay, fired and fired[:3]))
            d = snapdiff(before, snap((a, kw)))
            log.append((c, lay, fired, r[0], d))
            if d:
                bad = "%s with %s arguments%s modified argument %s" % (
                    self.name(c), lay, " (struck by %s at %s)" % (f[1], fired) if fired else (", which raised %s," % r[1] if r[0] == "exc" else ""), d)
                break
        return Outcome(viol=bad, vclass="modified" if bad else None, stats=st, key=digest(keys), trivial=not keys,
                       digest=digest(log), note=str(keys[:2]))

    def shrink(self, group, case):
        for c in shrink_list(case, "ops"):
            if c["ops"]:
                yield c
        for i, (c, lay, f) in enumerate(case["ops"]):
            if f:
                yield dict(ops=case["ops"][:i] + [[c, lay, None]] + case["ops"][i + 1:])
            if lay != "asis":
                yield dict(ops=case["ops"][:i] + [[c, "asis", f]] + case["ops"][i + 1:])
