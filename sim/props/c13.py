"""Grouped click probabilities: a function of arguments and seed; unbiased; honest errors."""
import random, itertools
from forked import np
import core
from statprop import StatProp
from core import Outcome, digest


class Prop(StatProp):
    ID = "C13"
    GROUPS = {"jit": 8}
    BUDGET = {"quick": 34, "thorough": 300}
    RULE = ("one run = one set of arguments evaluated after a seeded history (numpy draws, draws from the generator of compiled code, "
            "stray seeding, other calls, the same call) and by 1-3 simulated threads interleaved at every line of package code, compared bit for "
            "bit with a fresh process; or one state whose estimate is compared with the exact click distribution, its error with the "
            "spread over seeds; non-trivial = non-empty history, threads or a statistical case; distinct = distinct cases")
    PROBES = ["calls", "histories", "threads", "estimates", "cells", "error_tests", "squeezed_calls"]

    def jobs(self):
        def f(which, arr):
            def g():
                import numpy as np
                from thewalrus.grouped_click_probabilities import grouped_click_probabilities as G, grouped_click_probabilities_squeezed as GS
                T = np.eye(2) * (0.9 + 0j)
                if arr == "F":
                    T = np.asfortranarray(np.ones((3, 2)) + 0j)
                for s in ((10, 2), (10, 2, 5)):
                    (G(np.ones(2), np.ones(2), T, *s) if which == 0 else GS(np.ones(2) * 0.3, T, *s))
            return g
        return [[f(0, "C"), f(1, "C")]]

    def after_setup(self):
        import numba, numpy

        @numba.njit
        def draw(n):
            t = 0.0
            for _ in range(n):
                t += numpy.random.normal()
            return t

        @numba.njit
        def seed(s):
            numpy.random.seed(s)
        draw(2), seed(1)
        self.nb_draw, self.nb_seed = draw, seed

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        kind = rng.choice(["func", "func", "stat", "stat", "error"])
        def args():
            m = rng.choice([1, 2, 2, 3, 4])
            return dict(m=m, k=rng.randint(1, m), sq=rng.random() < 0.5, sseed=rng.getrandbits(40), N=rng.choice([20, 60, 200, 203]), g=rng.choice([1, 2, 5, 10]),
                        seed=rng.choice([None, 0, 1, 1990, rng.getrandbits(31)]))
        c = dict(kind=kind, a=args())
        if kind == "func":
            ops = []
            for _ in range(rng.randint(0, 6)):
                x = rng.random()
                if x < 0.2:
                    ops.append(["numpy", rng.randint(1, 5)])
                elif x < 0.4:
                    ops.append(["compiled", rng.randint(1, 5)])
                elif x < 0.5:
                    ops.append(["seed", rng.getrandbits(31)])
                elif x < 0.6:
                    ops.append(["seed-compiled", rng.getrandbits(31)])
                elif x < 0.75:
                    ops.append(["same"])
                else:
                    ops.append(["call", args()])
            c["ops"] = ops
            c["threads"] = [[args() if rng.random() < 0.5 else c["a"] for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            c["sched"] = dict(seed=rng.getrandbits(40), p=rng.choice([0.05, 0.3, 1.0]))
        else:
            c["a"]["N"] = rng.choice([20000, 40000]) if kind == "stat" else 2000
            c["a"]["g"] = rng.choice([10, 20, 7]) if kind == "stat" else 20
            if rng.random() < 0.3:      # not a multiple of the number of groups
                c["a"]["N"], c["a"]["g"] = (rng.choice([[20009, 1300], [20999, 70], [30019, 2000]]) if kind == "stat" else [2039, 20])
            c["a"]["m"] = min(c["a"]["m"], 3)
            c["a"]["k"] = min(c["a"]["k"], c["a"]["m"])
            c["a"]["seed"] = rng.getrandbits(31)
            c["reps"] = 5 if kind == "stat" else 150
            if kind == "stat" and rng.random() < 0.25:      # small biases
                c["a"]["m"] = c["a"]["k"] = rng.choice([1, 1, 2])
                c["a"]["N"], c["a"]["g"], c["reps"] = {1: 1000000, 2: 500000}[c["a"]["m"]] * (1 if tier == "quick" else 4), 50, 2
        return c

    def params(self, a):
        """phn, chn (or squeezing), transfer matrix."""
        import ref
        r = np.random.default_rng(a["sseed"])
        m, k = a["m"], a["k"]
        U = ref.rand_unitary(r, m)
        T = (U @ np.diag(np.sqrt(r.uniform(0.4, 1.0, size=m))) @ ref.rand_unitary(r, m))[:, :k]
        T = np.ascontiguousarray(T)
        if a["sq"]:
            return (r.uniform(0.1, 0.7, size=k), T)
        n = r.uniform(0.05, 0.5, size=k)
        return (n, np.sqrt(n * (n + 1)) * r.uniform(0.0, 1.0, size=k), T)     # between thermal and squeezed

    def call(self, a, seed=None):
        from thewalrus.grouped_click_probabilities import grouped_click_probabilities as G, grouped_click_probabilities_squeezed as GS
        s = a["seed"] if seed is None else seed
        extra = () if s is None else (s,)
        p = self.params(a)
        x = (GS if a["sq"] else G)(*p, a["N"], a["g"], *extra)
        return [np.asarray(y) for y in x]

    def exact(self, a):
        import dist
        p = self.params(a)
        if a["sq"]:
            n, c, T = np.sinh(p[0]) ** 2, 0.5 * np.sinh(2 * p[0]), p[1]
        else:
            n, c, T = p
        N = (T * n) @ T.conj().T             # <a_i a_j^dagger>-like moments after the interferometer
        M = (T * c) @ T.T
        # x = a + a^dagger, p = -i(a - a^dagger), hbar = 2: vacuum covariance is 1
        A = N.T                               # <a_i^dagger a_j>: N_ji
        m = a["m"]
        xx = np.eye(m) + 2 * (M.real + A.real)
        pp = np.eye(m) + 2 * (A.real - M.real)
        xp = 2 * (M.imag + A.imag)
        V = np.block([[xx, xp], [xp.T, pp]])
        P = dist.clicks(np.zeros(2 * m), 0.5 * (V + V.T), 2)
        out = np.zeros(m + 1)
        for d, q in P.items():
            out[sum(d)] += q
        return out

    def run(self, group, case):
        if case["kind"] == "func":
            def one(a):
                m = core.isolated(lambda: self.call(a), 60)
                if m[0] != "ok":
                    raise core.HarnessError("call alone: %s" % (m,))
                return m[1]
            self.want = {}
            for a in [case["a"]] + [a for t in case["threads"] for a in t] + [o[1] for o in case["ops"] if o[0] == "call"]:
                k = core.jdump(a)
                if k not in self.want:
                    self.want[k] = one(a)
        return super().run(group, case)

    def check(self, a, got, what):
        w = self.want[core.jdump(a)]
        for name, x, y in zip(("probabilities", "errors"), got, w):
            if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=True):
                return "%s %s: %s are %s, in a fresh process %s (arguments %s)" % ("squeezed" if a["sq"] else "general", what, name, x.tolist(), y.tolist(), a)
        return None

    def run_in_child(self, group, c):
        st = dict(calls=0, histories=0, threads=0, estimates=0, cells=0, error_tests=0, squeezed_calls=0, switches=0)
        a = c["a"]
        st["squeezed_calls"] += a["sq"]
        if c["kind"] == "func":
            return self.func(c, st)
        self.hook.off()
        P = self.exact(a)
        bad, vc = None, "bias"
        if c["kind"] == "stat":
            xs, es = [], []
            for i in range(c["reps"]):
                p, e = self.call(a, (a["seed"] + i) & 0x7FFFFFFF)
                st["calls"] += 1
                st["estimates"] += 1
                xs.append(p)
                es.append(e)
            x, e = np.mean(xs, axis=0), np.sqrt(np.mean(np.square(es), axis=0))
            se = e / np.sqrt(a["g"] * c["reps"])      # e is the spread between groups
            for k in range(len(P)):
                st["cells"] += 1
                d = abs(x[k] - P[k])
                if not np.isfinite(x[k]) or d > 12 * se[k] + 1e-10:
                    bad = "probability of %d clicks is estimated as %.6g (standard error %.2g), its exact value is %.6g" % (k, x[k], se[k], P[k])
                    break
            if bad is None and abs(x.sum() - 1) > 1e-9:
                bad = "probabilities sum to %.12g" % x.sum()
        else:
            xs, es = [], []
            for i in range(c["reps"]):
                p, e = self.call(a, (a["seed"] + i) & 0x7FFFFFFF)
                st["calls"] += 1
                xs.append(p)
                es.append(e)
            xs, es = np.array(xs), np.array(es)
            st["error_tests"] += 1
            real = xs.std(axis=0, ddof=1) * np.sqrt(a["g"])           # spread of group means, measured over seeds
            said = np.sqrt(np.mean(es**2, axis=0) * a["g"] / (a["g"] - 1))
            vc = "error-estimate"
            for k in range(len(P)):
                if real[k] > 1e-9 and not 0.6 < said[k] / real[k] < 1.65:
                    bad = "error of %d clicks is said to be %.3g, the spread between groups is %.3g" % (k, said[k], real[k])
                    break
        if bad:
            bad = "grouped click probabilities (%s): %s" % (a, bad)
        return Outcome(viol=bad, vclass=vc if bad else None, stats=st, key=digest(c), digest=digest(bad, [repr(x) for x in np.ravel(xs)[:20]]), note=c["kind"])

    def func(self, c, st):
        a = c["a"]
        bad = None
        np.random.seed(7)
        for op in c["ops"]:
            st["histories"] += 1
            if op[0] == "numpy":
                np.random.normal(size=op[1])
            elif op[0] == "compiled":
                self.nb_draw(op[1])
            elif op[0] == "seed":
                np.random.seed(op[1])
            elif op[0] == "seed-compiled":
                self.nb_seed(op[1])
            else:
                b = a if op[0] == "same" else op[1]
                st["calls"] += 1
                bad = self.check(b, self.call(b), "after a history")
                if bad:
                    break
        if bad is None:
            st["calls"] += 1
            bad = self.check(a, self.call(a), "after a history")
        log = ""
        if bad is None and c["threads"]:
            import threading
            sim = self.pysim.Sim(c["sched"])
            res = []

            def body(i, lst):
                for b in lst:
                    np.random.normal()
                    res.append((i, b, self.call(b)))
                    self.nb_draw(1)

            def main():
                ts = [threading.Thread(target=body, args=(i, l)) for i, l in enumerate(c["threads"])]
                for t in ts:
                    t.start()
                body(-1, [a])
                for t in ts:
                    t.join()
            self.hook.arm(sim)
            try:
                sim.run(main)
            finally:
                self.hook.disarm()
            st["threads"] += len(c["threads"])
            st["switches"] += sim.nswitch
            log = sim.digest()
            if len(res) != 1 + sum(map(len, c["threads"])):
                bad = "a concurrent caller got no result"
            for i, b, r in res:
                st["calls"] += 1
                bad = bad or self.check(b, r, "with concurrent callers")
        return Outcome(viol=bad, vclass="function" if bad else None, stats=st, key=digest(c), trivial=not c["ops"] and not c["threads"],
                       digest=digest(bad, log), note="%d operations, %d threads" % (len(c["ops"]), len(c["threads"])))

    def shrink(self, group, c):
        if c["kind"] == "func":
            if c["threads"]:
                yield dict(c, threads=[])
                for i in range(len(c["threads"])):
                    yield dict(c, threads=c["threads"][:i] + c["threads"][i + 1:])
            for i in range(len(c["ops"])):
                yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
