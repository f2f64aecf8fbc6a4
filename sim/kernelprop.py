"""Common part of the properties about multi-threaded kernels (C01-C04).

One run = one workload (arguments) executed under several simulated schedules;
every result is compared with a reference model written from the definition.
"""
import os, random, copy
import numpy as np
from core import Outcome, digest, HarnessError
import nbsim

MAXY = 40_000_000


def mat(spec, rng=None):
    """Symmetric matrix from a spec (pure function of the spec)."""
    n, fl, seed = spec["n"], spec["fl"], spec["seed"]
    r = np.random.default_rng(seed)
    if fl == "int":
        A = r.integers(-3, 4, size=(n, n))
        A = np.triu(A) + np.triu(A, 1).T
    elif fl == "nonneg":
        A = r.uniform(0, 1, size=(n, n))
        A = A + A.T
    elif fl == "real":
        A = r.normal(size=(n, n))
        A = A + A.T
    elif fl == "ones":
        A = np.ones((n, n))
    elif fl == "sparse":
        A = r.normal(size=(n, n)) * (r.random((n, n)) < 0.5)
        A = A + A.T
    elif fl == "block":
        A = np.zeros((n, n), dtype=complex)
        k = n // 2
        B = r.normal(size=(k, n - k)) + 1j * r.normal(size=(k, n - k))
        A[:k, k:] = B
        A[k:, :k] = B.T
    elif fl == "lowrank":
        g = r.normal(size=n) + 1j * r.normal(size=n)
        A = np.outer(g, g)
    elif fl == "imag":
        A = 1j * r.normal(size=(n, n))
        A = A + A.T
    elif fl == "offdiag":
        A = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        A = A + A.T
        np.fill_diagonal(A, 0)
    elif fl == "small":
        A = 0.05 * (r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
        A = A + A.T
    elif fl == "gbs":
        g = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        U, _ = np.linalg.qr(g)
        A = U @ np.diag(np.tanh(r.uniform(0.1, 1.2, size=n))) @ U.T
        A = 0.5 * (A + A.T)
    else:
        A = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        A = A + A.T
    lay = spec.get("lay", "C")
    if lay == "F":
        A = np.asfortranarray(A)
    elif lay == "S":
        B = np.zeros((2 * n, 2 * n), dtype=A.dtype)
        B[::2, ::2] = A
        A = B[::2, ::2]
    elif lay == "R":
        A.setflags(write=False)
    return A


FLAVOURS = ["complex", "complex", "real", "real", "int", "nonneg", "ones", "sparse", "block", "lowrank", "imag", "offdiag", "small", "gbs"]


def vec(spec):
    n, fl, seed = spec["n"], spec["fl"], spec["seed"]
    r = np.random.default_rng(seed + 77)
    if fl == "zero":
        return np.zeros(n)
    if fl == "real":
        return r.normal(size=n)
    if fl == "int":
        return r.integers(-3, 4, size=n)
    if fl == "sparse":
        return r.normal(size=n) * (r.random(n) < 0.5)
    return r.normal(size=n) + 1j * r.normal(size=n)


def sched_list(rng, k):
    """k schedule configurations (swarm: thread count, preemption rate, work division)."""
    out = []
    for _ in range(k):
        out.append(dict(threads=rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 12, 16, 33, 64]),
                        p=rng.choice([0.0, 0.0, 0.0005, 0.003, 0.02, 0.1, 0.3, 0.5, 1.0]),
                        fulldiv=rng.randrange(2), perm=rng.randrange(2), burst=rng.randrange(2),
                        seed=rng.getrandbits(60)))
    return out


def set_sched(s):
    if "decisions" in s:
        nbsim.configure(threads=s["threads"], mode=2, max_yields=MAXY)
        nbsim.set_replay(s["decisions"])
    else:
        nbsim.configure(threads=s["threads"], mode=1, p=s["p"], fulldiv=s["fulldiv"], perm=s["perm"],
                        burst=s["burst"], seed=s["seed"], max_yields=MAXY)


class KernelProp:
    LEVEL = "exploration"
    BUDGET = {"quick": 25, "thorough": 600}
    SCHEDS = {"quick": 6, "thorough": 8}
    RULE = ("one run = one generated argument set executed under several seeded simulated schedules (thread count, "
            "work division, take order, preemption before individual memory accesses of the compiled kernel), each result "
            "compared with the definition; non-trivial = at least one parallel region ran on 2 or more workers with 2 or "
            "more divisions; distinct = distinct hashes of the full sequence of (division, worker, switch) events")
    REAL = "the package's real Python front ends and the machine code numba generates from the current tree, LAPACK/BLAS"
    SIMULATED = "numba's threading layer (thread pool, work division, thread ids, preemption) replaced by seeded coroutines"
    ASSUMPTIONS = ["real threads do not preempt inside LAPACK/NRT calls in ways that matter (no shared state there)",
                   "sequentially consistent memory (one simulated processor)"]
    PROBES = ["regions", "switches", "runs_multi", "empty_division_cfg"]

    def setup(self, group, tier):
        os.environ["NUMBA_NUM_THREADS"] = "64"
        nbsim.install()
        import warnings
        warnings.simplefilter("ignore")
        import thewalrus
        if not thewalrus.__file__.startswith(os.environ.get("VERIF_REPO", "/repo")):
            raise HarnessError("wrong thewalrus: " + thewalrus.__file__)
        self.tw = thewalrus
        self.warm(group, tier)

    def warm(self, group, tier):
        rng = random.Random(1)
        for i in range(6):
            w = self.workload(group, rng, tier)
            nbsim.configure(threads=2)
            self.call(group, self.args(group, w))

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        return dict(w=self.workload(group, rng, tier), scheds=sched_list(rng, self.SCHEDS[tier]))

    def run(self, group, case):
        w = case["w"]
        args = self.args(group, w)
        ref, tol = self.reference(group, w, args)
        st = dict(regions=0, switches=0, yield_points=0, divisions=0, schedules=0, runs_multi=0, empty_division_cfg=0)
        key, dg = [], []
        nontriv = False
        for s in case["scheds"]:
            set_sched(s)
            try:
                got = self.call(group, args)
                err = None
            except Exception as e:  # the arguments are valid: no call may fail
                got, err = None, "%s: %s" % (type(e).__name__, e)
            x = nbsim.stats()
            st["schedules"] += 1
            st["regions"] += x["regions"]
            st["switches"] += x["switches"]
            st["yield_points"] += x["yields"]
            st["divisions"] += x["divisions"]
            if x["regions"] and s["threads"] > 1:
                st["runs_multi"] += 1
                nontriv = True
                st["empty_division_cfg"] += bool(s.get("fulldiv"))
            st["max_threads"] = max(st.get("max_threads", 0), s["threads"])
            key.append(x["hash"])
            dg.append((x["hash"], x["yields"], repr(got)))
            bad = err or self.compare(group, w, got, ref, tol)
            if not bad and x["yields"] >= MAXY:
                bad = "no result within %d steps" % MAXY
            if bad:
                c = dict(w=w, scheds=[s])
                if "decisions" not in s:
                    lg, over = nbsim.log()
                    if not over and len(lg) < 60000:
                        c = dict(w=w, scheds=[dict(threads=s["threads"], decisions=[list(t) for t in lg])])
                return Outcome(viol="%s; arguments %s; threads=%d" % (bad, self.describe(group, w), s["threads"]),
                               vclass="error" if err else "value", stats=st, key=tuple(key), digest=digest(dg), case=c)
        return Outcome(stats=st, key=tuple(key), trivial=not nontriv, digest=digest(dg),
                       note="%d schedules, result %s" % (len(case["scheds"]), str(np.asarray(ref).ravel()[:3])))

    def describe(self, group, w):
        return str(w)[:300]

    def compare(self, group, w, got, ref, tol):
        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.shape != ref.shape:
            return "result has shape %s, expected %s" % (got.shape, ref.shape)
        d = np.abs(got.astype(complex) - ref.astype(complex))
        if not np.all(d <= tol):
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            return "result %r differs from the definition %r" % (got.ravel()[i], ref.ravel()[i])
        return None

    def shrink(self, group, case):
        s = case["scheds"]
        if len(s) > 1:
            for x in s:
                yield dict(w=case["w"], scheds=[x])
            return
        s = s[0]
        for w in self.shrink_w(group, case["w"]):
            yield dict(w=w, scheds=[s])
        # default schedule with fewer threads (is a schedule needed at all?)
        if s.get("decisions") != []:
            for t in (1, 2, 3, s["threads"]):
                if t <= s["threads"]:
                    yield dict(w=case["w"], scheds=[dict(threads=t, decisions=[])])
        if "decisions" in s:
            d = s["decisions"]
            n = len(d)
            k = 2
            while n and k <= n * 2 and k <= 64:
                step = max(1, n // k)
                for a in range(0, n, step):
                    yield dict(w=case["w"], scheds=[dict(threads=s["threads"], decisions=d[:a] + d[a + step:])])
                if step == 1:
                    break
                k *= 2

    def shrink_w(self, group, w):
        return ()
