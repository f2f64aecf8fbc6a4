"""The Monte Carlo hafnian is unbiased for every number of samples and refuses what it does not support."""
import random, itertools
from forked import np
import core
from statprop import StatProp
from core import Outcome, digest


def matchings(n):
    def go(L):
        if not L:
            yield ()
            return
        a = L[0]
        for i in range(1, len(L)):
            for m in go(L[1:i] + L[i + 1:]):
                yield ((a, L[i]),) + m
    return list(go(list(range(n))))


class Prop(StatProp):
    ID = "C12"
    GROUPS = {"py": 4, "jit": 4}
    BUDGET = {"quick": 28, "thorough": 300}
    RULE = ("one run = one matrix with non-negative entries (size 2-8, weighted, 0/1, banded, with diagonal), a number of samples per "
            "estimate (1-400) and a random stream; the mean of 4000-60000 draws in total compared with the sum over matchings "
            "(12 standard errors), the spread with that of single draws; or an unsupported matrix that must be refused; "
            "non-trivial = hafnian not zero; distinct = distinct cases")
    PROBES = ["estimates", "mean_tests", "spread_tests", "refusals", "exact_sizes"]

    def jobs(self):
        def f():
            import numpy as np
            import thewalrus
            thewalrus.hafnian(np.ones((6, 6)), approx=True, num_samples=2)
            thewalrus.hafnian(np.ones((6, 6)), approx=True, num_samples=np.int64(2))
            thewalrus.hafnian(np.ones((6, 6)).astype(int), approx=True, num_samples=2)
        return [[f]]

    def after_setup(self):
        if self.group == "jit":
            import numba, numpy

            @numba.njit
            def seed_numba(s):
                numpy.random.seed(s)
            seed_numba(1)
            self.seed_numba = seed_numba

    def reseed(self, s):
        np.random.seed(s)
        if self.group == "jit":
            self.seed_numba(s)

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        c = dict(kind=rng.choice(["mean", "mean", "mean", "spread", "refuse"]), n=rng.choice([6, 6, 6, 8, 8, 2, 4]), sseed=rng.getrandbits(40), rseed=rng.getrandbits(31),
                 flavour=rng.choice(["dense", "ones", "sparse", "band", "int", "diag"]), m=rng.choice([1, 1, 2, 3, 10, 50, 400]),
                 how=rng.choice(["hafnian", "hafnian", "direct"]), total=rng.choice([4000, 10000] if group == "py" else [10000, 60000, 200000]))
        if rng.random() < 0.15:     # no perfect matching
            c["flavour"] = "star"
        if c["kind"] != "mean":
            c["n"] = rng.choice([6, 6, 8])
        if c["kind"] == "spread":       # (sparse matrices have heavy tails: their spread falls too slowly to be tested)
            c["n"] = 6
            c["flavour"] = rng.choice(["dense", "ones", "diag"])
        if c["n"] < 6:
            c["how"] = "hafnian"
        if group == "jit" and c["kind"] == "mean" and rng.random() < 0.15:     # small biases: light tails, many draws
            c.update(n=rng.choice([6, 8]), flavour=rng.choice(["dense", "ones", "diag"]), m=rng.choice([7, 64, 100, 128, 250, 1000]), total=600000)
        return c

    def matrix(self, c):
        r = np.random.default_rng(c["sseed"])
        n, f = c["n"], c["flavour"]
        if f == "ones":
            A = np.ones((n, n)) * float(r.uniform(0.5, 2))
        elif f == "int":
            A = np.triu(r.integers(0, 3, size=(n, n)), 1)
            A = A + A.T
            if not A.any():
                A = np.ones((n, n), dtype=int)
        elif f == "star":
            A = np.zeros((n, n))
            if n > 2:
                A[0, 1:] = A[1:, 0] = r.random(n - 1)
        elif f == "sparse":
            A = np.triu(r.random((n, n)) * (r.random((n, n)) < 0.6), 1)
            A = A + A.T
            A[0, n - 1] = A[n - 1, 0] = 0.7
        elif f == "band":
            w = int(r.integers(1, n))
            A = r.random((n, n))
            A = A + A.T
            A[np.abs(np.subtract.outer(np.arange(n), np.arange(n))) > w] = 0
        else:
            A = r.random((n, n))
            A = A + A.T
            if f == "diag":
                A = A + np.diag(r.random(n) * 2)
        return A

    def estimate(self, A, c, m):
        import thewalrus
        from thewalrus._hafnian import hafnian_approx
        if c["how"] == "direct":
            return float(hafnian_approx(A, num_samples=m))
        return float(thewalrus.hafnian(A, approx=True, num_samples=m))

    def haf(self, A):
        n = len(A)
        return float(sum(np.prod([A[i, j] for i, j in m]) for m in matchings(n)))

    def run_in_child(self, group, c):
        st = dict(estimates=0, mean_tests=0, spread_tests=0, refusals=0, exact_sizes=0, zero_hafnians=0)
        self.hook.off()
        self.reseed(c["rseed"])
        if c["kind"] == "refuse":
            bad = self.refuse(c, st)
            return Outcome(viol=bad, vclass="not-refused" if bad else None, stats=st, key=digest(c), digest=digest(bad), note="refusal")
        A = self.matrix(c)
        A0 = A.copy()
        h = self.haf(A)
        bad = None
        n = c["n"]
        if n < 6:
            st["exact_sizes"] += 1
            st["estimates"] += 1
            v = self.estimate(A, c, c["m"])
            if abs(v - h) > 1e-9 * max(1, h):
                bad = "gives %r, the hafnian is %r" % (v, h)
            return self.done(c, st, bad, "value", [v], h)
        if c["kind"] == "mean":
            k = max(1, c["total"] // c["m"])
            v = np.array([self.estimate(A, c, c["m"]) for _ in range(k)])
            st["estimates"] += k
            st["mean_tests"] += 1
            N = k * c["m"]
            if h == 0:
                st["zero_hafnians"] += 1
                if np.abs(v).max() > 1e-6 * max(1.0, A.max() ** (n // 2)):
                    bad = "gives %r, the hafnian is 0" % v[np.argmax(np.abs(v))]
            else:
                # standard error of a mean of N draws: from the sample, but never below that of a matrix with a single matching
                emp = v.std() / np.sqrt(k) if k > 50 else 0
                se = max(emp, 3.0 ** (n / 4) * h / np.sqrt(N) * (1 if k > 50 else 3))
                if c["flavour"] in ("dense", "ones", "diag") and k >= 500 and N >= 300000:
                    se = emp        # well determined by now
                d = (v.mean() - h) / se
                if not np.isfinite(d) or abs(d) > 12:
                    bad = "mean of %d draws (%d samples an estimate) is %r, the hafnian is %r: %.1f standard errors away" % (N, c["m"], v.mean(), h, d)
                elif k > 10 and len(set(v.tolist())) < k // 2:
                    bad = "%d independent estimates take only %d values" % (k, len(set(v.tolist())))
            return self.done(c, st, bad, "bias", v, h)
        # spread
        R, m = 60, 400
        one = np.array([self.estimate(A, c, 1) for _ in range(R * 4)])
        many = np.array([self.estimate(A, c, m) for _ in range(R)])
        st["estimates"] += R * 5
        st["spread_tests"] += 1
        if h > 0:
            a, b = np.median(np.abs(one - h)), np.median(np.abs(many - h))
            if b > 0.6 * a and b > 1e-9 * h:
                bad = "median error with 400 samples is %.3g, with 1 sample %.3g (hafnian %.3g)" % (b, a, h)
        else:
            st["zero_hafnians"] += 1
        return self.done(c, st, bad, "spread", np.concatenate([one, many]), h)

    def done(self, c, st, bad, vc, v, h):
        if bad:
            bad = "approximate hafnian of a %s matrix of size %d: %s" % (c["flavour"], c["n"], bad)
        return Outcome(viol=bad, vclass=vc if bad else None, stats=st, key=digest(c), trivial=h == 0, digest=digest([repr(x) for x in v][:500], bad),
                       note="%s n=%d m=%d" % (c["flavour"], c["n"], c["m"]))

    def refuse(self, c, st):
        import thewalrus
        r = np.random.default_rng(c["sseed"])
        n = c["n"]
        A = r.random((n, n))
        A = A + A.T
        i, j = (int(x) for x in r.permutation(n)[:2])
        tries = []
        B = A.astype(complex)
        B[i, j] += 0.3j
        B[j, i] += 0.3j
        tries.append(("complex", B))
        B = A.copy()
        B[i, j] = B[j, i] = -0.2
        tries.append(("negative", B))
        B = A.copy()
        B[i, j] += 1
        tries.append(("not symmetric", B))
        B = A.copy()
        B[i, i] = np.nan
        tries.append(("with NaN", B))
        tries.append(("not square", A[:, :-1]))
        for what, B in tries:
            try:
                v = thewalrus.hafnian(B, approx=True, num_samples=c["m"])
            except ValueError:
                st["refusals"] += 1
                continue
            return "hafnian(approx=True) gives %r for a matrix that is %s" % (v, what)
        return None
