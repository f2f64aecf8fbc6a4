"""Results do not depend on the history of earlier calls."""
import random
from forked import np
import hist
from hist import HistProp, EXC, leaves, shrink_list, snap, snapdiff, root
from core import Outcome, digest


def ruin(o):
    """The caller overwrites a returned value."""
    n = 0
    for p, x in list(leaves(o)):
        try:
            if isinstance(x, np.ndarray):
                if x.flags.writeable and x.size:
                    x[...] = np.array(-7.25).astype(x.dtype)
                    n += 1
            elif isinstance(x, list):
                x.reverse()
                x.append(-99)
                n += 1
            elif isinstance(x, dict):
                x.clear()
                n += 1
            elif isinstance(x, set):
                x.clear()
                n += 1
        except (ValueError, TypeError):
            pass
    return n


def overwrite(dst, src):
    """Copy new contents into the same argument objects; False if the shapes differ."""
    a, b = list(leaves(dst)), list(leaves(src))
    if [p for p, _ in a] != [p for p, _ in b] or not a:
        return False
    for (_, x), (_, y) in zip(a, b):
        if type(x) is not type(y):
            return False
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or x.dtype != y.dtype or not x.flags.writeable:
                return False
        elif isinstance(x, list) and (len(x) != len(y) or any(isinstance(i, (list, np.ndarray)) for i in x)):
            return False
    def scal(o):
        if isinstance(o, (tuple,)):
            return tuple(scal(i) for i in o)
        if isinstance(o, dict):
            return tuple(sorted((k, repr(scal(v))) for k, v in o.items()))
        if isinstance(o, (np.ndarray, list)):
            return type(o).__name__
        return repr(o)
    if scal(dst) != scal(src):
        return False
    for (_, x), (_, y) in zip(a, b):
        if isinstance(x, np.ndarray):
            x[...] = y
        elif isinstance(x, list):
            x[:] = y
        elif isinstance(x, dict):
            pass
    return True


class Prop(HistProp):
    ID = "C15"
    RULE = ("one run = a seeded history of 4-16 operations in one process: calls (few functions and argument seeds, so that arguments "
            "recur; also near relatives of them: one option, scalar or array exchanged, nudged by 1e-3 to 1e-6, turned or converted), calls struck by exceptions, the caller overwriting returned values, refilling the same argument objects with new "
            "contents, repeating calls; every result compared with the same call in a fresh process and every kept return value "
            "re-read at the end; non-trivial = at least two calls of the same function; distinct = distinct histories")
    PROBES = ["faults_fired", "overwritten", "refilled", "repeats", "kept", "relatives"]

    def wanted(self, e):
        return e.kind in ("det", "seeded")

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        focus = [self.pick(rng, self.names) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if rng.random() < 0.6:      # other variants of the same function
            n = focus[0][0]
            focus += [[n, v] for v in range(len(self.cat.E[n].variants))][:6]
        if rng.random() < 0.4:      # other functions of the same module
            m = self.cat.E[focus[0][0]].path.rsplit(".", 1)[0]
            sib = [n for n in self.names if self.cat.E[n].path.rsplit(".", 1)[0] == m]
            focus += [self.pick(rng, sib) for _ in range(2)]
        seeds = [self.some_seed(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        for i in range(rng.randint(4, 16)):
            x = rng.random()
            c = rng.choice(focus) + [rng.choice(seeds)]
            if rng.random() < 0.4:      # a near relative: one argument exchanged, nudged, turned
                c.append(self.relation(rng, c[0], seeds + [self.pool_seed(0)]))
            if not ops or x < 0.5:
                ops.append(["call", c])
            elif x < 0.65:
                ops.append(["fault", c, round(rng.random(), 6), rng.choice(EXC)])
            elif x < 0.8:
                ops.append(["ruin", rng.randrange(len(ops))])
            elif x < 0.9:
                ops.append(["refill", rng.randrange(len(ops)), rng.choice(seeds)])
            else:
                ops.append(["repeat", rng.randrange(len(ops))])
        return dict(ops=ops, stray=rng.getrandbits(30))

    def run(self, group, case):
        for o in case["ops"]:
            if o[0] in ("call", "fault"):
                self.alone(o[1])
            elif o[0] == "refill" and case["ops"][min(o[1], len(case["ops"]) - 1)][0] in ("call", "fault"):
                b = case["ops"][min(o[1], len(case["ops"]) - 1)][1]
                self.alone(b[:2] + [o[2]] + b[3:])
        o = super().run(group, case)
        if isinstance(o, Outcome):
            o.stats["relatives"] = sum(1 for x in case["ops"] if x[0] in ("call", "fault") and len(x[1]) > 3)
        return o

    def run_in_child(self, group, case):
        st = dict(faults_fired=0, overwritten=0, refilled=0, repeats=0, kept=0, calls=0)
        self.seed_rng(case["stray"])
        hist_ = []      # (call, args, raw result, image of the result, ruined)
        log = []
        bad = None
        count = {}

        def do(c, args, what):
            r = self.raw(c, args)
            st["calls"] += 1
            count[c[0]] = count.get(c[0], 0) + 1
            w = self.alone(c)[0]
            g = self.norm_result(r)
            log.append((c, what, repr(g[1])[:300]))
            if not self.agree(g, w):
                return "%s %s gives %s; alone it gives %s" % (self.name(c), what, self.text(g), self.text(w))
            hist_.append([c, args, r[1] if r[0] == "ok" else None, snap(r[1]) if r[0] == "ok" else None, False])
            return None

        for i, op in enumerate(case["ops"]):
            if op[0] == "call":
                bad = do(op[1], self.args(op[1]), "after %d operations" % i)
            elif op[0] == "fault":
                c = op[1]
                n = self.alone(c)[1]
                _, fired = self.faulted(c, 1 + int(op[2] * n), op[3])
                st["faults_fired"] += fired is not None
                log.append((c, fired))
                bad = do(c, self.args(c), "after being struck by %s at %s" % (op[3], fired))
            elif hist_:
                h = hist_[op[1] % len(hist_)]
                if op[0] == "ruin":
                    al = {id(root(x)) for _, x in leaves(h[1]) if isinstance(x, np.ndarray)} | {id(x) for _, x in leaves(h[1])}
                    if any((id(root(x)) if isinstance(x, np.ndarray) else id(x)) in al for _, x in leaves(h[2])):
                        continue    # the result is the caller's own argument
                    k = ruin(h[2])
                    if not k:
                        continue
                    h[4] = True
                    st["overwritten"] += 1
                    log.append(("ruin", k))
                    bad = do(h[0], self.args(h[0]), "after the caller overwrote the value it returned before")
                elif op[0] == "repeat":
                    st["repeats"] += 1
                    bad = do(h[0], self.args(h[0]), "repeated")
                elif op[0] == "refill":
                    c = h[0][:2] + [op[2]] + h[0][3:]
                    if op[2] == h[0][2] or tuple(c) not in self.memo:
                        continue
                    # results that are the caller's own objects change with them
                    for g in hist_:
                        al = {id(root(x)) for _, x in leaves(g[2]) if isinstance(x, np.ndarray)} | {id(x) for _, x in leaves(g[2])}
                        if any((id(root(x)) if isinstance(x, np.ndarray) else id(x)) in al for _, x in leaves(h[1])):
                            g[4] = True
                    if overwrite(h[1], self.args(c)):
                        st["refilled"] += 1
                        h[0] = c
                        h[4] = True
                        bad = do(c, h[1], "with new contents in argument objects used before")
            if bad:
                break
        if not bad:
            for c, a, r, im, ruined in hist_:
                if im and not ruined:
                    st["kept"] += 1
                    d = snapdiff(im, snap(r))
                    if d:
                        bad = "the value returned by %s was changed by a later call (%s)" % (self.name(c), d)
                        break
        triv = max(count.values(), default=0) < 2
        return Outcome(viol=bad, vclass="history" if bad else None, stats=st, key=digest(case["ops"]), trivial=triv,
                       digest=digest(log, bad), note=str(log[:2])[:200])

    def shrink(self, group, case):
        yield from shrink_list(case, "ops")
