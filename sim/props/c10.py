"""Seeded sequential sampling is reproducible after any history."""
import random
from forked import np
import core, hist
from hist import HistProp, EXC, shrink_list
from core import Outcome, digest, HarnessError


class Prop(HistProp):
    ID = "C10"
    ORACLE = False
    RULE = ("one run = a seeded prehistory of 0-8 operations (calls, sampling, calls struck by exceptions, stray seeding) followed by "
            "seeding the samplers and 2-6 sampling and random-matrix calls, executed in one process, compared bit for bit with the "
            "same seeded calls in a fresh process and with another seed; non-trivial = non-empty prehistory; distinct = distinct histories")
    PROBES = ["faults_fired", "pre_ops", "draws", "other_seed"]

    def wanted(self, e):
        return e.kind != "nrng" or self.group == "py"

    def fams(self, group, tier):
        if group == "jit" and tier == "quick":
            return ("light", "light2", "gcp", "charpoly", "batch")
        return super().fams(group, tier)

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        R = self.bykind["rng"]
        fr = [self.pick(rng, R) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.5:
            n = fr[0][0]
            fr += [[n, v] for v in range(len(self.cat.E[n].variants))][:4]
        seeds = [rng.getrandbits(40) for _ in range(rng.randint(1, 3))]
        pre = []
        for _ in range(rng.randint(0, 8)):
            c = (rng.choice(fr) if rng.random() < 0.6 else self.pick(rng, self.names)) + [rng.choice(seeds)]
            c = self.vary(rng, c, 0.25, seeds)
            x = rng.random()
            if x < 0.15:
                pre.append(["seed", rng.choice(["lib", "numpy"]), rng.getrandbits(30)])
            elif x < 0.5:
                pre.append(["fault", c, max(1, int(10 ** rng.uniform(0, 2.7))), rng.choice(EXC)])
            else:
                pre.append(["call", c])
        seq = [self.vary(rng, rng.choice(fr) + [rng.choice(seeds)], 0.2, seeds) for _ in range(rng.randint(2, 6))]
        return dict(pre=pre, seq=seq, seed=rng.choice([0, 1, 42, rng.getrandbits(31)]), how=rng.choice(["lib", "lib", "lib", "numpy"]))

    def seedit(self, how, s):
        import thewalrus.samples
        (thewalrus.samples.seed if how == "lib" else np.random.seed)(s)

    def sequence(self, case, s):
        self.seedit(case["how"], s)
        return [self.norm_result(self.raw(c)) for c in case["seq"]]

    def run(self, group, case):
        m = core.isolated(lambda: (self.sequence(case, case["seed"])), 60)
        m2 = core.isolated(lambda: (self.sequence(case, (case["seed"] + 1) & 0xFFFFFFFF)), 60)
        if m[0] != "ok" or m2[0] != "ok":
            raise HarnessError("sequence alone: %s %s" % (m, m2))
        self.want, self.other = m[1], m2[1]
        return super().run(group, case)

    def entropy(self, r):
        """A continuous random result (integer samples may coincide by chance)."""
        if r[0] != "ok":
            return False
        def cont(x):
            if x[0] == "a":
                return x[1].dtype.kind in "fc" and x[1].size > 0 and bool(np.any(x[1] != np.round(x[1].real)))
            return x[0] == "t" and any(cont(i) for i in x[1])
        return cont(r[1])

    def run_in_child(self, group, case):
        st = dict(faults_fired=0, pre_ops=0, draws=0, other_seed=0, compared_seeds=0)
        self.seed_rng(99)
        for op in case["pre"]:
            st["pre_ops"] += 1
            if op[0] == "seed":
                self.seedit(op[1], op[2])
            elif op[0] == "fault":
                _, fired = self.faulted(op[1], op[2], op[3])
                st["faults_fired"] += fired is not None
            else:
                self.raw(op[1])
        got = self.sequence(case, case["seed"])
        bad = None
        log = []
        for i, (c, g, w, o) in enumerate(zip(case["seq"], got, self.want, self.other)):
            st["draws"] += 1
            log.append((c, repr(g[1])[:300]))
            if g[0] != w[0] or (g[0] == "exc" and g[1] != w[1]) or (g[0] == "ok" and not exact(g[1], w[1])):
                bad = "call %d after seeding with %d, %s, gives %s after this history but %s in a fresh process" % (
                    i, case["seed"], self.name(c), self.text(g), self.text(w))
                break
            if i == 0:
                st["other_seed"] += 1
                if self.entropy(g):
                    st["compared_seeds"] += 1
                    if exact(g[1], o[1]):
                        bad = "%s gives the same result %s after seeding with %d and with %d" % (self.name(c), self.text(g), case["seed"], case["seed"] + 1)
                        break
        return Outcome(viol=bad, vclass="stream" if bad else None, stats=st, key=digest(case["pre"], case["seq"]), trivial=not case["pre"],
                       digest=digest(log, bad), note=str(case["seq"][:2]))

    def shrink(self, group, case):
        yield from shrink_list(case, "pre")
        for c in shrink_list(case, "seq"):
            if c["seq"]:
                yield c


def exact(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "a":
        return a[1].shape == b[1].shape and a[1].dtype == b[1].dtype and a[1].tobytes() == b[1].tobytes()
    if a[0] == "t":
        return len(a[1]) == len(b[1]) and all(map(exact, a[1], b[1]))
    return a[1] == b[1]
