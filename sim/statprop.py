"""Base of the properties about random outcomes: seeded streams, exact distributions, groups py and jit."""
import os, gc, random, warnings
import core
from core import Outcome, digest, HarnessError
from forked import ForkedProp, np


def orth(U):
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


class StatProp(ForkedProp):
    LEVEL = "exploration"
    GROUPS = {"py": 3, "jit": 5}
    BUDGET = {"quick": 50, "thorough": 500}
    WALL = True
    RUN_TIMEOUT = 100
    REAL = ("the whole package of the current tree (kernels compiled by numba in group jit, interpreted in group py); numpy, scipy")
    SIMULATED = "the random stream (seeded per run, or an adversary delivering rare values); exceptions injected before the draws"
    ASSUMPTIONS = ["distribution tests are exact binomial tests at a family-wise level of 1e-10 per run: biases below the resolution of "
                   "the largest batch (about 7 standard errors) are not seen"]

    def jobs(self):
        return []

    def setup(self, group, tier):
        self.group, self.tier = group, tier
        os.environ["NUMBA_NUM_THREADS"] = "64"
        if group == "py":
            os.environ["NUMBA_DISABLE_JIT"] = "1"
        import pysim
        pysim.install(core.REPO + "/thewalrus")
        self.pysim = pysim
        import numpy, scipy.linalg, scipy.special, scipy.stats, scipy.sparse, numba, dask
        if group == "jit":
            import nbsim
            nbsim.install(instrument=False)
        warnings.simplefilter("ignore")
        import stage
        stage.imports()
        if group == "jit":
            stage.build(self.jobs(), par=4 if tier == "quick" else 8)
        self.hook = pysim.Hook(core.REPO + "/thewalrus")
        self.after_setup()
        gc.collect()
        gc.freeze()
        gc.disable()

    def after_setup(self):
        pass

    def shrink(self, group, case):
        for k in ("pre",):
            if case.get(k):
                yield dict(case, **{k: []})
                for i in range(len(case[k])):
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        if case.get("N", 0) > 8:
            for f in (8, 4, 2):
                yield dict(case, N=max(8, case["N"] // f))
        if case.get("chunk", 0) and case["chunk"] < case.get("N", 0):
            yield dict(case, chunk=case["N"])


def resets(f, s):
    """Whether f leaves the random stream in the same state whatever state it found it in
    (its callers' next samples would repeat)."""
    d = []
    for x in (s, s ^ 1):
        np.random.seed(x & 0x7FFFFFFF)
        f()
        d.append(np.random.random())
    return d[0] == d[1]


def state_of(c):
    """(mu, cov) of the case's Gaussian state, from its seed."""
    import ref
    r = np.random.default_rng(c["sseed"])
    n, h, kind, amp = c["n"], c["hbar"], c["kind"], c.get("amp", 1.0)
    z = np.zeros(2 * n)
    if kind == "rand":
        mu, V = ref.rand_state(r, n, h, rmax=0.45 * amp, nth=0.15 * amp, disp=0.35 * amp)
    elif kind == "pure":
        mu, V = ref.rand_state(r, n, h, rmax=0.45 * amp, disp=0.35 * amp, pure=True)
    elif kind == "sq":
        s = r.uniform(-0.6, 0.6, size=n) * amp
        O = orth(np.diag(np.exp(1j * r.uniform(0, 6, size=n))))
        mu, V = z, h / 2 * O @ np.diag(np.exp(np.concatenate([-2 * s, 2 * s]))) @ O.T
    elif kind == "coh":
        mu, V = r.uniform(-0.7, 0.7, size=2 * n) * np.sqrt(2 * h) * amp, h / 2 * np.eye(2 * n)
    elif kind == "therm":
        nb = r.uniform(0, 0.4, size=n) * amp
        O = orth(ref.rand_unitary(r, n))
        mu, V = z, h / 2 * O @ np.diag(np.tile(1 + 2 * nb, 2)) @ O.T
    elif kind == "vac":       # some modes in vacuum, the others random
        mu, V = z.copy(), h / 2 * np.eye(2 * n)
        k = int(r.integers(0, n))
        if k:
            m2, V2 = ref.rand_state(r, k, h, rmax=0.5 * amp, nth=0.2 * amp, disp=0.4 * amp)
            p = r.permutation(n)[:k]
            ix = np.concatenate([p, p + n])
            V[np.ix_(ix, ix)] = V2
            mu[ix] = m2
    elif kind == "tms":       # photon numbers of modes a and b are equal
        mu, V = z, h / 2 * np.eye(2 * n)
        if n > 1:
            a, b = (int(x) for x in r.permutation(n)[:2])
            s, ph = r.uniform(0.2, 0.6) * amp, r.uniform(0, 6)
            C, S = np.cosh(2 * s), np.sinh(2 * s)
            ix = [a, b, a + n, b + n]
            V2 = np.array([[C, S, 0, 0], [S, C, 0, 0], [0, 0, C, -S], [0, 0, -S, C]])
            V = V.copy()
            V[np.ix_(ix, ix)] = h / 2 * V2
            # a phase on mode a keeps the correlation
            D = np.ones(n, complex)
            D[a] = np.exp(1j * ph)
            O = orth(np.diag(D))
            V = O @ V @ O.T
    elif kind == "split":     # one squeezed, noisy or displaced mode on balanced splitters with phases 0, 90, 180 or 270 degrees
        mu, V = z.copy(), h / 2 * np.eye(2 * n)
        t = int(r.integers(4))
        s, nb = (r.uniform(0.3, 0.6) * amp if t != 1 else 0.0), (r.uniform(0.2, 0.5) * amp if t in (1, 2) else 0.0)
        V[0, 0], V[n, n] = h / 2 * np.exp(-2 * s) * (1 + 2 * nb), h / 2 * np.exp(2 * s) * (1 + 2 * nb)
        if t == 3 or r.random() < 0.3:
            mu[int(r.integers(2)) * n] = r.uniform(0.3, 0.7) * np.sqrt(2 * h) * amp
        U = np.eye(n, dtype=complex)
        for b in range(1, n):
            B = np.eye(n, dtype=complex)
            f = 1j ** int(r.integers(4))
            B[0, 0] = B[b, b] = np.sqrt(0.5)
            B[0, b], B[b, 0] = np.sqrt(0.5) * f, -np.sqrt(0.5) * np.conj(f)
            U = B @ U
        U = U[r.permutation(n)]
        O = orth(U)
        mu, V = O @ mu, O @ V @ O.T
    elif kind == "prod":      # a product of modes of different kinds, some of them the same
        mu, V = z.copy(), h / 2 * np.eye(2 * n)
        sh = r.uniform(0.2, 0.6, size=3) * amp
        for i in range(n):
            t = int(r.integers(5))
            x = sh[int(r.integers(3))]
            if t in (1, 3):
                mu[i + n * int(r.integers(2))] = x * np.sqrt(2 * h)
            if t in (2, 3):
                sg = 1 if r.random() < 0.5 else -1
                V[i, i], V[i + n, i + n] = h / 2 * np.exp(-2 * x * sg), h / 2 * np.exp(2 * x * sg)
            if t == 4:
                V[i, i] = V[i + n, i + n] = h / 2 * (1 + x)
    V = 0.5 * (V + V.T)
    return mu, V


def adjacency(c):
    r = np.random.default_rng(c["sseed"])
    n = c["n"]
    if c["kind"] == "graph01":
        while True:
            A = np.triu((r.random((n, n)) < 0.7).astype(float), 1)
            A = A + A.T
            if A.any():
                return A
    A = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if c["kind"] == "graphc" else 0)
    return (A + A.T) / 2
