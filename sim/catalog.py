"""Catalogue of the public API: seeded generators of valid (and some invalid) calls.

reg(path, family, variants) registers a generator  gen(v, r) -> (args, kwargs)
where v is a variant (it fixes dtypes, layouts and options, hence which compiled
signatures and which Python branches are reached) and r a numpy Generator.
"""
import importlib, itertools
import numpy as np
import ref

E = {}


class Entry:
    def __init__(self, name, path, fam, variants, gen, kind, heavy):
        self.name, self.path, self.fam, self.variants, self.gen, self.kind, self.heavy = name, path, fam, list(variants), gen, kind, heavy

    def fn(self):
        m, f = self.path.rsplit(".", 1)
        return getattr(importlib.import_module(m), f)

    def args(self, vi, seed):
        r = np.random.default_rng([seed & 0xFFFFFFFF, seed >> 32, vi, 7])
        return self.gen(self.variants[vi % len(self.variants)], r)


def reg(path, fam, variants=(None,), kind="det", name=None, heavy=1):
    def deco(g):
        n = name or path.replace("thewalrus.", "")
        assert n not in E, n
        E[n] = Entry(n, path, fam, variants, g, kind, heavy)
        return g
    return deco


def sym(r, n, dt="f", lo=-1.0):
    if dt == "c":
        A = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
    elif dt == "i":
        A = r.integers(-2, 4, size=(n, n))
        return np.triu(A) + np.triu(A, 1).T
    elif dt == "p":
        A = r.uniform(0, 1, size=(n, n))
    else:
        A = r.normal(size=(n, n))
    return A + A.T


def vec(r, n, dt="f"):
    if dt == "c":
        return r.normal(size=n) + 1j * r.normal(size=n)
    if dt == "i":
        return r.integers(-2, 4, size=n)
    return r.normal(size=n)


def lay(A, l):
    if l == "F":
        return np.asfortranarray(A)
    if l == "S":
        B = np.zeros(tuple(2 * k for k in A.shape), dtype=A.dtype)
        s = tuple(slice(None, None, 2) for _ in A.shape)
        B[s] = A
        return B[s]
    return A


def symp(r, n, passive=False):
    U, W = ref.rand_unitary(r, n), ref.rand_unitary(r, n)
    o = lambda U: np.block([[U.real, -U.imag], [U.imag, U.real]])
    if passive:
        return o(U)
    q = r.uniform(-0.6, 0.6, size=n)
    return o(U) @ np.diag(np.concatenate([np.exp(-q), np.exp(q)])) @ o(W)


def hb(r):
    return [2, 2.0, 1.0, 0.5, 1.7][r.integers(5)]


def V(*lists):
    return list(itertools.product(*lists))


T = "thewalrus."
Q = "thewalrus.quantum."
S = "thewalrus.symplectic."

# ---------------------------------------------------------------- hafnians


@reg(T + "hafnian", "haf", V("fc", (False, True), ("glynn", "inclexcl"), "CS") + [("i", False, "glynn", "C"), ("i", True, "glynn", "C")])
def _(v, r):
    dt, loop, m, l = v
    n = int(r.choice([2, 3, 4, 5, 6, 6, 7, 8]))
    return (lay(sym(r, n, dt), l),), dict(loop=loop, method=m)


@reg(T + "hafnian", "haf", V("fc", (False, True)), name="hafnian_recursive")
def _(v, r):
    return (sym(r, int(r.choice([2, 4, 6, 8])), v[0]),), dict(loop=v[1], method="recursive", rtol=1e-6, atol=1e-9)


@reg(T + "hafnian", "haf", ("diag", "zero", "empty", "nonsym", "nan", "nonsquare", "list"), name="hafnian_special")
def _(v, r):
    n = int(r.choice([2, 4, 5, 6]))
    A = sym(r, n)
    if v == "diag":
        A = np.diag(vec(r, n))
    elif v == "zero":
        A = np.zeros((n, n))
    elif v == "empty":
        A = np.zeros((0, 0))
    elif v == "nonsym":
        A = r.normal(size=(n, n))
    elif v == "nan":
        A[0, 0] = np.nan
    elif v == "nonsquare":
        A = r.normal(size=(n, n + 1))
    else:
        A = A.tolist()
    return (A,), dict(loop=bool(r.integers(2)))


@reg(T + "loop_hafnian", "haf", V("fc", ("none", "D"), ("none", "reps"), (True, False), "CF"))
def _(v, r):
    dt, d, rp, glynn, l = v
    n = int(r.choice([2, 3, 4, 5, 6]))
    kw = dict(glynn=glynn)
    if d == "D":
        kw["D"] = vec(r, n, dt)
    if rp == "reps":
        kw["reps"] = [int(x) for x in r.integers(0, 4, size=n)]
    return (lay(sym(r, n, dt), l),), kw


@reg(T + "hafnian_repeated", "haf", V("fc", ("none", "mu"), (True, False), (True, False), "lat"))
def _(v, r):
    dt, m, loop, glynn, cont = v
    n = int(r.choice([1, 2, 3, 4, 5]))
    rpt = [int(x) for x in r.integers(0, 4, size=n)]
    if cont == "a":
        rpt = np.array(rpt)
    elif cont == "t":
        rpt = tuple(rpt)
    kw = dict(loop=loop, glynn=glynn)
    if m == "mu":
        kw["mu"] = vec(r, n, dt)
    return (sym(r, n, dt), rpt), kw


@reg(T + "hafnian_repeated", "haf", ("zero", "badlen", "neg", "allzero"), name="hafnian_repeated_special")
def _(v, r):
    A = sym(r, 3)
    if v == "zero":
        return (np.zeros((3, 3)), [1, 2, 1]), dict(loop=True, mu=vec(r, 3))
    if v == "badlen":
        return (A, [1, 2]), {}
    if v == "neg":
        return (A, [1, -1, 2]), {}
    return (A, [0, 0, 0]), {}


@reg(T + "reduction", "light", ("2d", "1d"))
def _(v, r):
    n = int(r.integers(1, 6))
    A = sym(r, n, "c") if v == "2d" else vec(r, n, "c")
    rpt = [int(x) for x in r.integers(0, 4, size=n)]
    if r.integers(2):
        rpt = np.array(rpt)
    return (A, rpt), {}


@reg(T + "matched_reps", "haf", ("list", "array"))
def _(v, r):
    rep = [int(x) for x in r.integers(0, 5, size=int(r.integers(1, 8)))]
    return ((rep if v == "list" else np.array(rep)),), {}


@reg(T + "hafnian_sparse", "light", V("fc", (False, True), ("all", "set", "list")), heavy=2)
def _(v, r):
    n = int(r.choice([2, 4, 5, 6]))
    A = sym(r, n, v[0]) * 1.0
    M = np.triu(r.random((n, n)) < 0.8)
    A = A * (M | M.T)
    A[0, 1] = A[1, 0] = 1.5
    D = {"all": None, "set": {0, 1, n - 1}, "list": [0, 1]}[v[2]]
    return (A,), dict(D=D, loop=v[1])


@reg(T + "hafnian_banded", "light", V("fc", (False, True)))
def _(v, r):
    n = int(r.choice([2, 4, 5, 6]))
    A = sym(r, n, v[0])
    w = int(r.integers(1, 3))
    A = np.triu(np.tril(A, w), -w)
    return (A,), dict(loop=v[1])


@reg(T + "low_rank_hafnian", "light", "fc", heavy=3)
def _(v, r):
    n, k = [(2, 2), (4, 1), (4, 2), (3, 1), (3, 2), (2, 1)][r.integers(6)]
    G = r.normal(size=(n, k)) + (1j * r.normal(size=(n, k)) if v == "c" else 0)
    return (G,), {}


@reg(T + "_low_rank_haf.partitions", "light")
def _(v, r):
    return (int(r.integers(1, 4)), int(r.integers(0, 6))), {}


@reg(T + "_hafnian.bandwidth", "light")
def _(v, r):
    n = int(r.integers(1, 6))
    w = int(r.integers(0, 3))
    return (np.triu(np.tril(sym(r, n), w), -w),), {}


@reg(T + "_hafnian.powerset", "light")
def _(v, r):
    return ([int(x) for x in r.integers(0, 9, size=int(r.integers(0, 5)))],), {}


@reg(T + "hafnian", "haf", (None,), kind="nrng", name="hafnian_approx")
def _(v, r):
    return (sym(r, int(r.choice([6, 8])), "p"),), dict(approx=True, num_samples=int(r.choice([1, 5, 20])))


@reg(T + "loop_hafnian_batch.loop_hafnian_batch", "batch", V("c", (0, 1), (True,)))
def _(v, r):
    dt, par, glynn = v
    n = int(r.choice([2, 3, 4]))
    reps = [int(x) for x in r.integers(0, 3, size=n - 1)]
    if sum(reps) % 2 != par:
        reps[0] += 1
    A, D = sym(r, n, dt), vec(r, n, dt)
    return (A, D, (np.array(reps) if r.integers(2) else reps), int(r.integers(1, 5))), dict(glynn=glynn)


@reg(T + "loop_hafnian_batch_gamma.loop_hafnian_batch_gamma", "batchg", V("c", (0, 1), (True,)))
def _(v, r):
    dt, par, glynn = v
    n = int(r.choice([2, 3, 4]))
    reps = [int(x) for x in r.integers(0, 3, size=n - 1)]
    if sum(reps) % 2 != par:
        reps[0] += 1
    k = int(r.integers(1, 4))
    D = r.normal(size=(k, n)) + 1j * r.normal(size=(k, n))
    return (sym(r, n, dt), D, np.array(reps), int(r.integers(1, 5))), dict(glynn=glynn)


# ---------------------------------------------------------------- permanents, Bristolians


@reg(T + "perm", "perm", V("fci", ("bbfg", "ryser")))
def _(v, r):
    n = int(r.choice([1, 2, 3, 4, 5]))
    A = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if v[0] == "c" else 0)
    if v[0] == "i":
        A = r.integers(-2, 3, size=(n, n))
    return (A,), dict(method=v[1])


@reg(T + "permanent_repeated", "haf", "fc")
def _(v, r):
    n = int(r.choice([1, 2, 3]))
    A = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if v == "c" else 0)
    return (A, [int(x) for x in r.integers(0, 3, size=n)]), {}


@reg(T + "brs", "perm")
def _(v, r):
    m, n = int(r.integers(1, 4)), int(r.integers(1, 4))
    A = r.normal(size=(m, n)) + 1j * r.normal(size=(m, n))
    Em = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
    return (A, Em), {}


@reg(T + "ubrs", "perm")
def _(v, r):
    m, n = int(r.integers(1, 4)), int(r.integers(1, 4))
    return (r.normal(size=(m, n)) + 1j * r.normal(size=(m, n)),), {}


@reg(T + "_permanent.fock_prob", "perm")
def _(v, r):
    n = int(r.integers(2, 4))
    i = [int(x) for x in r.integers(0, 3, size=n)]
    i[0] = max(i[0], 1)
    o = [0] * n
    for _ in range(sum(i)):
        o[int(r.integers(n))] += 1
    return (i, o, ref.rand_unitary(r, n)), {}


@reg(T + "_permanent.fock_threshold_prob", "perm", ("U", "lossy"))
def _(v, r):
    n = int(r.integers(2, 4))
    i = [int(x) for x in r.integers(0, 2, size=n)]
    i[0] = 1
    d = [int(x) for x in r.integers(0, 2, size=n)]
    if not any(d):
        d[0] = 1
    U = ref.rand_unitary(r, n)
    if v == "lossy":
        U = U * np.sqrt(r.uniform(0.3, 0.9, size=n))
    if sum(d) > sum(i):
        d = [0] * n
        d[0] = int(sum(i) > 0)
    return (np.array(i), np.array(d), U), {}


# ---------------------------------------------------------------- torontonians


def oten(r, n, disp=False):
    mu, C = ref.rand_state(r, n, 2, displaced=disp)
    A, g, _ = ref.husimi_A(mu, C, 2)
    X = np.roll(np.eye(2 * n), n, axis=0)
    return X @ A, g.astype(complex)


@reg(T + "tor", "tor", V((True, False), ("c", "f")))
def _(v, r):
    n = int(r.integers(1, 5))
    if v[1] == "f":
        s = r.uniform(0.1, 0.5, size=n)
        Sm = np.diag(np.tanh(s))
        O = np.block([[np.zeros((n, n)), Sm], [Sm, np.zeros((n, n))]])
        O = (O + O.T) / 2
    else:
        O = oten(r, n)[0]
    return (O,), dict(recursive=v[0])


@reg(T + "ltor", "tor", V((True, False)))
def _(v, r):
    return oten(r, int(r.integers(1, 4)), True), dict(recursive=v[0])


@reg(T + "threshold_detection_prob", "tor", V(("disp", "zero"), ("list", "array")))
def _(v, r):
    n = int(r.integers(1, 4))
    h = hb(r)
    mu, C = ref.rand_state(r, n, h, displaced=v[0] == "disp")
    d = [int(x) for x in r.integers(0, 2, size=n)]
    return (mu, C, d if v[1] == "list" else np.array(d)), dict(hbar=h)


@reg(T + "_torontonian.numba_vac_prob", "tor")
def _(v, r):
    n = int(r.integers(1, 3))
    mu, C = ref.rand_state(r, n, 2, displaced=True)
    A, g, p = ref.husimi_A(mu, C, 2)
    I = np.eye(n)
    R = np.block([[I, 1j * I], [I, -1j * I]]) / 2
    return ((R @ mu)[: n].copy() if False else (R @ mu), R @ C @ R.conj().T + 0.5 * np.eye(2 * n)), {}


# ---------------------------------------------------------------- montrealer, characteristic polynomial


def mont(r, n):
    return oten(r, n)[0]


@reg(T + "mtl", "mont")
def _(v, r):
    return (sym(r, 2 * int(r.integers(1, 4)), "c"),), {}


@reg(T + "lmtl", "mont")
def _(v, r):
    n = 2 * int(r.integers(1, 4))
    z = vec(r, n // 2, "c")
    return (sym(r, n, "c"), np.concatenate([z, z.conj()])), {}


@reg(T + "charpoly.charpoly", "charpoly", "fc")
def _(v, r):
    n = int(r.integers(2, 6))
    A = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if v == "c" else 0)
    return (A,), {}


@reg(T + "charpoly.powertrace", "charpoly", "fc")
def _(v, r):
    n = int(r.integers(2, 6))
    A = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if v == "c" else 0)
    return (A, int(r.integers(2, 9))), {}


# ---------------------------------------------------------------- Hermite polynomials


@reg(T + "hermite_multidimensional", "herm", V("fc", (True, False), (True, False), ("none", "y", "ymod"), (1, 2)))
def _(v, r):
    dt, renorm, mk, y, n = v
    cut = [3, 4, 5][r.integers(3)]
    if n == 2 and r.integers(2):
        cut = [3, 4]
    kw = dict(renorm=renorm, make_tensor=mk)
    if y != "none":
        kw["y"] = vec(r, n, dt)
        kw["modified"] = y == "ymod"
    if r.integers(2):
        kw["C"] = 0.7
    return (sym(r, n, dt), cut), kw


@reg(T + "hafnian_batched", "herm", V("fc", (True, False), (None, "mu")))
def _(v, r):
    dt, renorm, m = v
    n = 2
    return (sym(r, n, dt), int(r.integers(2, 5))), dict(renorm=renorm, mu=None if m is None else vec(r, n, dt), make_tensor=bool(r.integers(2)))


@reg(T + "interferometer", "herm2", (True, False))
def _(v, r):
    l = 1
    U = ref.rand_unitary(r, l)
    return (np.block([[0 * U, -U], [-U.T, 0 * U]]), int(r.integers(2, 5))), dict(renorm=v)


@reg(T + "grad_hermite_multidimensional", "herm2", V("fc", (True, False)))
def _(v, r):
    dt, renorm = v
    n = 2
    R, y = sym(r, n, dt), vec(r, n, dt)
    G = r.normal(size=(3, 3)) + (1j * r.normal(size=(3, 3)) if dt == "c" else 0)
    return (G, R, y), dict(renorm=renorm, C=0.5)


# ---------------------------------------------------------------- gates and gradients


def _gate(name, fam, two=False):
    @reg(T + "fock_gradients." + name, fam)
    def _(v, r):
        return (float(r.uniform(0.05, 1.2)), float(r.uniform(0, 6)), int(r.integers(2, 6))), {}

    @reg(T + "fock_gradients.grad_" + name, fam)
    def _(v, r):
        c = int(r.integers(2, 5))
        T_ = r.normal(size=(c,) * (4 if two else 2)) + 1j * r.normal(size=(c,) * (4 if two else 2))
        return (T_, float(r.uniform(0.05, 1.2)), float(r.uniform(0, 6))), {}


_gate("displacement", "grad1")
_gate("squeezing", "grad1")
_gate("two_mode_squeezing", "grad2", True)
_gate("beamsplitter", "grad3", True)
_gate("mzgate", "grad4", True)

# ---------------------------------------------------------------- quantum


def state(r, n=None, displaced=None, pure=None, h=None):
    n = int(r.integers(1, 4)) if n is None else n
    h = hb(r) if h is None else h
    mu, C = ref.rand_state(r, n, h, displaced=displaced, pure=pure)
    return mu, C, h, n


def ladj(r, n, real=False):
    A = r.normal(size=(n, n)) + (0 if real else 1j * r.normal(size=(n, n)))
    return A + A.T


@reg(Q + "reduced_gaussian", "light", ("list", "int", "all", "bad"))
def _(v, r):
    mu, C, h, n = state(r)
    if v == "int":
        return (mu, C, int(r.integers(n))), {}
    if v == "all":
        return (mu, C, list(range(n))), {}
    if v == "bad":
        return (mu, C, [n + 2]), {}
    return (mu, C, [int(x) for x in r.permutation(n)[: int(r.integers(1, n + 1))]]), {}


@reg(Q + "Xmat", "light")
def _(v, r):
    return (int(r.integers(1, 6)),), {}


@reg(Q + "Qmat", "light", "CFS")
def _(v, r):
    mu, C, h, n = state(r)
    return (lay(C, v),), dict(hbar=h)


@reg(Q + "Covmat", "light")
def _(v, r):
    mu, C, h, n = state(r)
    I = np.eye(n)
    R = np.block([[I, 1j * I], [I, -1j * I]]) / np.sqrt(2 * h)
    return (R @ C @ R.conj().T + 0.5 * np.eye(2 * n),), dict(hbar=h)


@reg(Q + "Amat", "light", ("cov", "q", "S"))
def _(v, r):
    mu, C, h, n = state(r)
    if v == "q":
        I = np.eye(n)
        R = np.block([[I, 1j * I], [I, -1j * I]]) / np.sqrt(2 * h)
        return (R @ C @ R.conj().T + 0.5 * np.eye(2 * n),), dict(hbar=h, cov_is_qmat=True)
    return (lay(C, v),), dict(hbar=h)


@reg(Q + "complex_to_real_displacements", "light")
def _(v, r):
    return (vec(r, 2 * int(r.integers(1, 4))),), dict(hbar=hb(r))


@reg(Q + "real_to_complex_displacements", "light")
def _(v, r):
    a = vec(r, int(r.integers(1, 4)), "c")
    return (np.concatenate([a, a.conj()]),), dict(hbar=hb(r))


@reg(Q + "Means", "light")
def _(v, r):
    a = vec(r, int(r.integers(1, 4)), "c")
    return (np.concatenate([a, a.conj()]),), dict(hbar=hb(r))


@reg(Q + "Beta", "light")
def _(v, r):
    return (vec(r, 2 * int(r.integers(1, 4))),), dict(hbar=hb(r))


for _n in ("is_valid_cov", "is_pure_cov", "is_classical_cov", "find_classical_subsystem"):
    @reg(Q + _n, "light", ("ok", "bad", "F"))
    def _(v, r, _n=_n):
        mu, C, h, n = state(r)
        if v == "bad" and _n != "find_classical_subsystem":
            C = 0.3 * C
        if v == "F":
            C = lay(C, "F")
        return (C,), dict(hbar=h)


@reg(Q + "is_valid_cov", "light", ("odd", "nonsq", "nonsym"), name="is_valid_cov_special")
def _(v, r):
    C = {"odd": np.eye(3), "nonsq": np.ones((2, 4)), "nonsym": np.triu(np.ones((4, 4)))}[v]
    return (C,), {}


@reg(Q + "fidelity", "light", ("mm", "pm"))
def _(v, r):
    h = hb(r)
    n = int(r.integers(1, 4))
    m1, C1 = ref.rand_state(r, n, h, pure=v == "pm")
    m2, C2 = ref.rand_state(r, n, h)
    return (m1, C1, m2, C2), dict(hbar=h)


@reg(Q + "is_symplectic", "light", ("ok", "bad"))
def _(v, r):
    Sm = symp(r, int(r.integers(1, 4)))
    return (Sm if v == "ok" else 1.1 * Sm,), {}


@reg(Q + "adj_scaling", "light", "fc")
def _(v, r):
    return (ladj(r, int(r.integers(2, 5)), v == "f"), float(r.uniform(0.1, 3))), {}


@reg(Q + "adj_scaling_torontonian", "light", "fc", heavy=2)
def _(v, r):
    n = int(r.integers(2, 5))
    return (ladj(r, n, v == "f"), float(r.uniform(0.1, 0.8 * n))), {}


@reg(Q + "adj_to_qmat", "light", "fc")
def _(v, r):
    return (ladj(r, int(r.integers(2, 5)), v == "f"), float(r.uniform(0.1, 3))), {}


@reg(Q + "gen_Qmat_from_graph", "light")
def _(v, r):
    return (ladj(r, 3, True), float(r.uniform(0.1, 3))), {}


@reg(Q + "photon_number_mean", "light")
def _(v, r):
    mu, C, h, n = state(r)
    return (mu, C, int(r.integers(n))), dict(hbar=h)


for _n in ("photon_number_mean_vector", "photon_number_covmat"):
    @reg(Q + _n, "light", "CF")
    def _(v, r):
        mu, C, h, n = state(r)
        return (mu, lay(C, v)), dict(hbar=h)


@reg(Q + "photon_number_covar", "light", ("same", "diff"))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(2, 4)))
    return (mu, C, 0, 0 if v == "same" else 1), dict(hbar=h)


for _n in ("photon_number_expectation", "photon_number_squared_expectation"):
    @reg(Q + _n, "haf", (True, False))
    def _(v, r):
        mu, C, h, n = state(r, n=int(r.integers(1, 3)), displaced=v)
        return (mu, C, [int(x) for x in r.permutation(n)[: int(r.integers(1, n + 1))]]), dict(hbar=h)


@reg(Q + "normal_ordered_expectation", "haf", (True, False))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(1, 3)), displaced=v)
    return (mu, C, [int(x) for x in r.integers(0, 3, size=2 * n)]), dict(hbar=h)


@reg(Q + "s_ordered_expectation", "haf", (True, False))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(1, 3)), displaced=v)
    return (mu, C, [int(x) for x in r.integers(0, 3, size=2 * n)]), dict(hbar=h, s=float(r.choice([-1, 0, 0.5, 1])))


@reg(Q + "photon_number_moment", "haf", (True, False))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(1, 3)), displaced=v)
    return (mu, C, {int(i): int(r.integers(1, 3)) for i in range(n)}), dict(hbar=h)


@reg(Q + "photon_number_cumulant", "haf", (True, False))
def _(v, r):
    mu, C, h, n = state(r, n=2, displaced=v)
    return (mu, C, [[0, 1], [0, 0], [1, 1, 0]][r.integers(3)]), dict(hbar=h)


@reg(T + "quantum.means_and_variances.click_cumulant", "tor", (True, False))
def _(v, r):
    mu, C, h, n = state(r, n=2, displaced=v)
    return (mu, C, [[0, 1], [0], [1]][r.integers(3)]), dict(hbar=h)


for _n in ("mean_clicks", "variance_clicks"):
    @reg(Q + _n, "light")
    def _(v, r):
        mu, C, h, n = state(r)
        return (C,), dict(hbar=h)


@reg(Q + "mean_number_of_clicks", "light")
def _(v, r):
    mu, C, h, n = state(r)
    return (C,), dict(hbar=h)


@reg(Q + "pure_state_distribution", "light", ("pure", "mixed"))
def _(v, r):
    mu, C, h, n = state(r, pure=v == "pure", h=2)
    return (C,), dict(cutoff=int(r.choice([5, 8, 11])), padding_factor=int(r.choice([1, 2])))


@reg(Q + "total_photon_number_distribution", "light")
def _(v, r):
    return (int(r.integers(0, 7)), int(r.integers(1, 5)), float(r.uniform(0.1, 1)), float(r.uniform(0.1, 1))), {}


@reg(Q + "characteristic_function", "light", (None, 0, 1, 2))
def _(v, r):
    return (int(r.integers(1, 4)), float(r.uniform(0.1, 0.6)), float(r.uniform(0.2, 1)), float(r.uniform(-1, 0))), dict(poly_corr=v, max_iter=200)


@reg(Q + "vonneumann_entropy", "light")
def _(v, r):
    mu, C, h, n = state(r)
    return (C,), dict(hbar=h)


for _n in ("entanglement_entropy", "log_negativity"):
    @reg(Q + _n, "light", ("list", "int", "split", "none"))
    def _(v, r):
        mu, C, h, n = state(r, n=int(r.integers(2, 4)), pure=True)
        kw = dict(hbar=h)
        if v == "list":
            kw["modes_A"] = [0, n - 1] if n > 2 else [0]
        elif v == "int":
            kw["modes_A"] = 1
        elif v == "split":
            kw["split"] = 1
        return (C,), kw


@reg(Q + "pure_state_amplitude", "haf", V((True, False), (True, False)))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(1, 3)), pure=True, displaced=v[0])
    return (mu, C, [int(x) for x in r.integers(0, 5 if v[1] else 2, size=n)]), dict(hbar=h, include_prefactor=bool(r.integers(2)))


@reg(Q + "density_matrix_element", "haf", V((True, False), (True, False)))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(1, 3)), displaced=v[0])
    hi = 4 if v[1] else 2
    return (mu, C, [int(x) for x in r.integers(0, hi, size=n)], tuple(int(x) for x in r.integers(0, hi, size=n))), dict(hbar=h, include_prefactor=bool(r.integers(2)))


@reg(Q + "state_vector", "herm", V((True, False), (1, 2)))
def _(v, r):
    mu, C, h, n = state(r, n=v[1], pure=True, displaced=v[0])
    return (mu, C), dict(hbar=h, cutoff=int(r.integers(2, 5)), normalize=bool(r.integers(2)))


@reg(Q + "state_vector", "haf", (True, False), name="state_vector_ps", heavy=3)
def _(v, r):
    mu, C, h, n = state(r, n=2, pure=True, displaced=v)
    return (mu, C), dict(hbar=h, cutoff=3, post_select={int(r.integers(2)): int(r.integers(3))}, normalize=bool(r.integers(2)))


@reg(Q + "density_matrix", "herm", V((True, False), (1,)))
def _(v, r):
    mu, C, h, n = state(r, n=v[1], displaced=v[0])
    return (mu, C), dict(hbar=h, cutoff=int(r.integers(2, 5)))


@reg(Q + "density_matrix", "haf", (True, False), name="density_matrix_ps", heavy=4)
def _(v, r):
    mu, C, h, n = state(r, n=2, displaced=v)
    return (mu, C), dict(hbar=h, cutoff=2, post_select={int(r.integers(2)): int(r.integers(3))}, normalize=bool(r.integers(2)))


@reg(Q + "fock_tensor", "herm", V(("passive", "active", "disp"), (True, False)), heavy=2)
def _(v, r):
    l = 1
    Sm = symp(r, l, v[0] == "passive")
    al = vec(r, l, "c") if v[0] == "disp" else np.zeros(l)
    return (Sm, al, 3), dict(sf_order=v[1])


@reg(Q + "probabilities", "haf", V((True, False), (1, 2)), heavy=4)
def _(v, r):
    mu, C, h, n = state(r, n=v[1], pure=False, displaced=v[0])
    return (mu, C, int(r.integers(2, 4))), dict(hbar=h)


@reg(Q + "probabilities", "herm", (1, 2), name="probabilities_pure")
def _(v, r):
    mu, C, h, n = state(r, n=v, pure=True)
    return (mu, C, int(r.integers(2, 4))), dict(hbar=h)


@reg(Q + "loss_mat", "light2", ("ok", "bad"))
def _(v, r):
    return (float(r.choice([0.0, 0.3, 0.9, 1.0])) if v == "ok" else 1.5, int(r.integers(2, 6))), {}


@reg(Q + "update_probabilities_with_loss", "light2", (1, 2))
def _(v, r):
    c = int(r.integers(2, 5))
    p = r.random((c,) * v)
    return ([float(x) for x in r.uniform(0, 1, size=v)], p / p.sum()), {}


@reg(Q + "update_probabilities_with_noise", "light2", (1, 2))
def _(v, r):
    c = int(r.integers(2, 5))
    p = r.random((c,) * v)
    return ([r.random(3) for _ in range(v)], p / p.sum()), {}


@reg(Q + "tvd_cutoff_bounds", "herm", (True, False))
def _(v, r):
    mu, C, h, n = state(r, n=int(r.integers(1, 3)), displaced=v)
    return (mu, C, int(r.integers(2, 5))), dict(hbar=h)


@reg(Q + "n_body_marginals", "haf", (True, False), heavy=5)
def _(v, r):
    mu, C, h, n = state(r, n=2, displaced=v, pure=False)
    return (mu, C, 2, int(r.integers(1, 3))), dict(hbar=h)


# ---------------------------------------------------------------- symplectic


@reg(S + "expand", "light", ("one", "int", "many", "sparse", "coo"))
def _(v, r):
    if v in ("one", "int"):
        return (symp(r, 1), ([0, 2] if v == "one" else 1), 3), {}
    Sm = symp(r, 2)
    if v == "sparse":
        from scipy.sparse import csr_array
        Sm = csr_array(Sm)
    if v == "coo":
        from scipy.sparse import coo_array
        Sm = coo_array(Sm)
    return (Sm, ([2, 0] if r.integers(2) else (1, 2)), 3), {}


@reg(S + "expand_vector", "light")
def _(v, r):
    return (complex(r.normal(), r.normal()), int(r.integers(3)), 3), dict(hbar=hb(r))


@reg(S + "expand_passive", "light", ("ok", "bad"))
def _(v, r):
    return (ref.rand_unitary(r, 2), [0, 2] if v == "ok" else [0], 3), {}


@reg(S + "reduced_state", "light", ("list", "int", "all", "array", "bad"))
def _(v, r):
    mu, C, h, n = state(r)
    m = {"list": [0], "int": 0, "all": list(range(n)), "array": np.array([0]), "bad": [n + 3]}[v]
    return (mu, C, m), {}


@reg(S + "vacuum_state", "light")
def _(v, r):
    return (int(r.integers(1, 4)),), dict(hbar=hb(r))


@reg(S + "squeezing", "light", ("scalar", "array", "phi"))
def _(v, r):
    if v == "scalar":
        return (float(r.normal()),), {}
    x = vec(r, 3)
    return ((x,), {}) if v == "array" else ((x, vec(r, 3)), {})


for _n in ("two_mode_squeezing", "beam_splitter"):
    @reg(S + _n, "light")
    def _(v, r):
        return (float(r.normal()), float(r.normal())), {}


@reg(S + "interferometer", "light", "CS")
def _(v, r):
    return (lay(ref.rand_unitary(r, 3), v),), {}


@reg(S + "passive_transformation", "light")
def _(v, r):
    mu, C, h, n = state(r, n=3)
    return (mu, C, ref.rand_unitary(r, 3)[: int(r.integers(1, 4))] * 0.9), dict(hbar=h)


@reg(S + "loss", "light", "CF")
def _(v, r):
    mu, C, h, n = state(r)
    return (mu, lay(C, v), float(r.uniform(0, 1)), int(r.integers(n))), dict(hbar=h, nbar=float(r.choice([0, 0.4])))


@reg(S + "mean_photon_number", "light")
def _(v, r):
    mu, C, h, n = state(r, n=1)
    return (mu, C), dict(hbar=h)


@reg(S + "rotation", "light")
def _(v, r):
    return (float(r.normal()),), {}


@reg(S + "sympmat", "light")
def _(v, r):
    return (int(r.integers(1, 5)),), {}


@reg(S + "is_symplectic", "light", ("ok", "odd"))
def _(v, r):
    return (symp(r, 2) if v == "ok" else np.eye(3),), {}


for _n in ("xxpp_to_xpxp", "xpxp_to_xxpp"):
    @reg(S + _n, "light", ("m", "v", "F", "odd"))
    def _(v, r):
        n = 2 * int(r.integers(1, 4))
        if v == "odd":
            return (vec(r, 3),), {}
        return (vec(r, n) if v == "v" else lay(r.normal(size=(n, n)), v),), {}


# ---------------------------------------------------------------- decompositions


@reg(T + "decompositions.williamson", "light", ("ok", "nonsym", "neg", "F"))
def _(v, r):
    mu, C, h, n = state(r)
    if v == "nonsym":
        C = C + np.triu(np.ones_like(C), 1)
    if v == "neg":
        C = C - 10 * np.eye(2 * n)
    return (lay(C, v),), {}


@reg(T + "decompositions.symplectic_eigenvals", "light")
def _(v, r):
    mu, C, h, n = state(r)
    return (C,), {}


for _n in ("blochmessiah", "pre_iwasawa", "iwasawa"):
    @reg(T + "decompositions." + _n, "light", ("ok", "bad", "F"))
    def _(v, r):
        Sm = symp(r, int(r.integers(1, 4)))
        return (lay(Sm if v != "bad" else 2 * Sm, v),), {}


@reg(T + "decompositions.takagi", "light", V(("real", "complex", "phase", "diag", "zero", "F"), (True, False)))
def _(v, r):
    n = int(r.integers(2, 5))
    A = sym(r, n, "f" if v[0] in ("real", "phase") else "c")
    if v[0] == "phase":
        A = A * np.exp(0.3j)
    if v[0] == "diag":
        A = np.diag(vec(r, n, "c"))
    if v[0] == "zero":
        A = np.zeros((n, n))
    return (lay(A, v[0]),), dict(svd_order=v[1])


# ---------------------------------------------------------------- samplers (helpers and sampling)


@reg(T + "samples.decompose_cov", "light")
def _(v, r):
    mu, C, h, n = state(r)
    return (C,), dict(hbar=h)


@reg(T + "samples.mu_to_alpha", "light")
def _(v, r):
    return (vec(r, 4),), dict(hbar=hb(r))


@reg(T + "samples.invert_permutation", "light")
def _(v, r):
    return (r.permutation(5),), {}


@reg(T + "samples.photon_means_order", "light")
def _(v, r):
    mu, C, h, n = state(r, h=2)
    return (mu, C), {}


@reg(T + "csamples.rescale_adjacency_matrix_thermal", "light", ("ok", "nonsym"))
def _(v, r):
    n = int(r.integers(2, 4))
    B = r.normal(size=(n, n))
    A = B @ B.T
    if v == "nonsym":
        A = A + np.triu(np.ones((n, n)), 1)
    return (A, float(r.uniform(0.2, 2))), {}


@reg(T + "csamples.rescale_adjacency_matrix", "light")
def _(v, r):
    n = int(r.integers(2, 4))
    B = r.normal(size=(n, n))
    return (B @ B.T, float(r.uniform(0.2, 2)), float(r.choice([1.0, 2.0]))), {}


@reg(Q + "distinguishable_squeezers.number_means", "light")
def _(v, r):
    return (ref.rand_unitary(r, 3), vec(r, 3)), {}


@reg(Q + "distinguishable_squeezers.number_cov", "light")
def _(v, r):
    return (ref.rand_unitary(r, 3), vec(r, 3)), {}


@reg(T + "samples.get_heterodyne_fanout", "light", kind="rng")
def _(v, r):
    return (vec(r, 3, "c"), int(r.integers(2, 6))), {}


for _n in ("generate_hafnian_sample", "generate_torontonian_sample"):
    @reg(T + "samples." + _n, "batch" if "haf" in _n else "batchg", (True, False), kind="rng")
    def _(v, r, _n=_n):
        mu, C, h, n = state(r, n=int(r.integers(1, 4)), h=2)
        kw = {}
        if v:
            kw["mean" if "haf" in _n else "mu"] = mu
        return (C,), dict(kw, max_photons=int(r.choice([2, 8])))


for _n in ("hafnian_sample_state", "torontonian_sample_state"):
    @reg(T + "samples." + _n, "batch" if "haf" in _n else "batchg", V((True, False), ("ok", "list", "nan", "nonsq")), kind="rng", heavy=2)
    def _(v, r, _n=_n):
        mu, C, h, n = state(r, n=int(r.integers(1, 4)), h=2)
        kw = dict(max_photons=int(r.choice([3, 30])))
        if v[0]:
            kw["mean" if "haf" in _n else "mu"] = mu
        if v[1] == "list":
            C = C.tolist()
        elif v[1] == "nan":
            C = C.copy()
            C[0, 0] = np.nan
        elif v[1] == "nonsq":
            C = C[:, :-1]
        return (C, int(r.integers(1, 5))), kw


for _n in ("hafnian_sample_graph", "torontonian_sample_graph"):
    @reg(T + "samples." + _n, "batch" if "haf" in _n else "batchg", "fc", kind="rng", heavy=2)
    def _(v, r, _n=_n):
        return (ladj(r, int(r.integers(2, 4)), v == "f"), float(r.uniform(0.2, 1.5))), dict(samples=int(r.integers(1, 4)))


for _n in ("hafnian_sample_classical_state", "torontonian_sample_classical_state"):
    @reg(T + "samples." + _n, "light", ("mean", "zero", "nonclassical"), kind="rng")
    def _(v, r):
        h = hb(r)
        n = int(r.integers(1, 4))
        C = h / 2 * (np.eye(2 * n) * (1 + r.uniform(0, 1)))
        B = r.normal(size=(2 * n, 2 * n)) * 0.4
        C = C + h * B @ B.T
        if v == "nonclassical":
            C = h / 2 * np.diag(np.concatenate([0.5 * np.ones(n), 2.0 * np.ones(n)]))
        return (C, int(r.integers(1, 6))), dict(hbar=h, mean=vec(r, 2 * n) if v == "mean" else None)


@reg(T + "samples.hafnian_sample_graph_rank_one", "light", "fc", kind="rng")
def _(v, r):
    return (vec(r, int(r.integers(1, 5)), v), float(r.uniform(0.1, 2))), dict(samples=int(r.integers(1, 5)))


@reg(T + "samples.photon_number_sampler", "light", (False, -1), kind="rng")
def _(v, r):
    c, n = int(r.integers(2, 5)), int(r.integers(1, 4))
    p = r.random((c,) * n)
    p = p / p.sum() * (0.7 if v == -1 else 1.0)
    return (p, int(r.integers(1, 6))), dict(out_of_bounds=v)


@reg(T + "csamples.generate_thermal_samples", "light", kind="rng")
def _(v, r):
    n = int(r.integers(1, 4))
    return (r.uniform(0, 0.7, size=n), ref.rand_unitary(r, n, True)), dict(num_samples=int(r.integers(1, 5)))


@reg(Q + "distinguishable_squeezers.sample", "light", kind="rng")
def _(v, r):
    n = int(r.integers(1, 4))
    return (ref.rand_unitary(r, n) * 0.9, r.uniform(0.1, 0.8, size=n)), dict(n_samples=int(r.integers(1, 5)), input_cutoff=int(r.choice([10, 21])))


@reg(T + "random.random_interferometer", "light", (True, False), kind="rng")
def _(v, r):
    return (int(r.integers(1, 6)),), dict(real=v)


@reg(T + "random.random_symplectic", "light", V((True, False), (True, False)), kind="rng")
def _(v, r):
    return (int(r.integers(1, 5)),), dict(passive=v[0], block_diag=v[1], scale=float(r.choice([1.0, 0.3])))


@reg(T + "random.random_covariance", "light", V((True, False), (True, False)), kind="rng")
def _(v, r):
    return (int(r.integers(1, 5)),), dict(hbar=hb(r), pure=v[0], block_diag=v[1])


@reg(T + "random.random_block_interferometer", "light", V((True, False), (True, False)), kind="rng")
def _(v, r):
    return (int(r.integers(2, 7)),), dict(top_one=v[0], real=v[1])


@reg(T + "random.random_banded_interferometer", "light", V((True, False), (True, False)), kind="rng")
def _(v, r):
    n = int(r.integers(2, 7))
    return (n, int(r.integers(0, n))), dict(top_one_init=v[0], real=v[1])


@reg(T + "random.randnc", "light", kind="rng")
def _(v, r):
    return (int(r.integers(1, 4)), int(r.integers(1, 4))), {}


@reg(T + "grouped_click_probabilities.grouped_click_probabilities", "gcp", ("c", "f"), kind="seeded")
def _(v, r):
    m, k = int(r.integers(2, 5)), 2
    Tm = ref.rand_unitary(r, m)[:, :k].copy() if v == "c" else np.ascontiguousarray(ref.rand_unitary(r, m, True)[:, :k].real)
    Tm = Tm.astype(complex)
    q = r.uniform(0.1, 1, size=k)
    return (np.sinh(q) ** 2, 0.5 * np.sinh(2 * q), Tm, 40, int(r.choice([1, 2, 4]))), ({} if v == "c" else dict(seed=int(r.integers(1, 999))))


@reg(T + "grouped_click_probabilities.grouped_click_probabilities_squeezed", "gcp", ("c", "s"), kind="seeded")
def _(v, r):
    m, k = int(r.integers(2, 5)), 2
    Tm = ref.rand_unitary(r, m)[:, :k].copy()
    return (r.uniform(0.1, 1, size=k), Tm, 40, int(r.choice([1, 2, 4]))), ({} if v == "c" else dict(seed=int(r.integers(1, 999))))


# ---------------------------------------------------------------- reference implementations


@reg(T + "reference.hafnian", "light", V("fc", (True, False)), heavy=2)
def _(v, r):
    return (sym(r, int(r.choice([2, 3, 4, 5, 6])) if v[1] else int(r.choice([2, 4, 6])), v[0]),), dict(loop=v[1])


for _n in ("spm", "pmp", "rpmp", "rspm"):
    @reg(T + "reference." + _n, "light", ("tuple",), kind="det")
    def _(v, r, _n=_n):
        n = int(r.choice([2, 4, 6])) if _n != "spm" else int(r.choice([2, 3, 4, 5]))
        off = int(r.integers(0, 3))
        return (tuple(range(off, off + n)),), {}


@reg(T + "reference.partitions", "light", V((True, False)))
def _(v, r):
    return (tuple(range(int(r.choice([2, 4])))), v[0], True), {}


@reg(T + "reference.T", "light")
def _(v, r):
    return (int(r.integers(0, 12)),), {}


@reg(T + "reference.mtl", "light", V("fc", (True, False)), heavy=2)
def _(v, r):
    return (sym(r, int(r.choice([2, 4, 6])), v[0]),), dict(loop=v[1])


@reg(T + "version", "light")
def _(v, r):
    return (), {}


FAMS = sorted({e.fam for e in E.values()})


# ---------------------------------------------------------------- results


def plain(k):
    """repr of a key; numpy scalars like Python's (equal values compare equal)."""
    if isinstance(k, tuple):
        return "(%s)" % ",".join(plain(i) for i in k)
    if isinstance(k, frozenset):
        return "{%s}" % ",".join(sorted(plain(i) for i in k))
    return repr(k.item() if isinstance(k, np.generic) else int(k) if isinstance(k, bool) else k)


def norm(x, depth=0):
    """Comparable form of a result: nested tuples of arrays/scalars; generators are consumed."""
    import types
    if x is None or isinstance(x, str):
        return ("o", x)
    if isinstance(x, (bool, int, float, complex, np.generic)):
        return ("a", np.asarray(x))
    if isinstance(x, np.ndarray):
        return ("a", np.array(x, copy=True))
    if isinstance(x, dict):
        return ("d", tuple((plain(k), norm(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("s", tuple(sorted(plain(i) for i in x)))
    if hasattr(x, "toarray"):
        return ("a", np.array(x.toarray()))
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__") or hasattr(x, "__iter__"):
        items = list(x)
        if items and all(isinstance(i, (int, float, np.number)) for i in items):
            return ("a", np.array(items))
        return ("t", tuple(norm(i, depth + 1) for i in items))
    return ("o", repr(type(x)))


def same(a, b, rtol=1e-8, atol=1e-10):
    if a[0] != b[0]:
        return False
    if a[0] == "a":
        if a[1].shape != b[1].shape:
            return False
        if a[1].dtype.kind not in "biufc" or b[1].dtype.kind not in "biufc":
            return a[1].tolist() == b[1].tolist()
        x, y = np.asarray(a[1], dtype=complex), np.asarray(b[1], dtype=complex)
        m = max(1.0, float(np.max(np.abs(y[np.isfinite(y)]), initial=0)))
        return bool(np.all((np.abs(x - y) <= atol * m + rtol * np.abs(y)) | ((x != x) & (y != y)) | (x == y)))
    if a[0] in ("t",):
        return len(a[1]) == len(b[1]) and all(same(i, j, rtol, atol) for i, j in zip(a[1], b[1]))
    if a[0] == "d":
        return len(a[1]) == len(b[1]) and all(i[0] == j[0] and same(i[1], j[1], rtol, atol) for i, j in zip(a[1], b[1]))
    return a[1] == b[1]


def show(a):
    if a is None:
        return "None"
    if a[0] == "a":
        s = np.array2string(a[1], precision=6, threshold=8)
        return s if len(s) < 160 else s[:160] + "..."
    s = repr(a[1])
    return s if len(s) < 160 else s[:160] + "..."


def call(name, vi, seed):
    """Make the call; returns ('ok', normalised) or ('exc', type name)."""
    e = E[name]
    args, kw = e.args(vi, seed)
    try:
        return ("ok", norm(e.fn()(*args, **kw)))
    except Exception as x:
        return ("exc", type(x).__name__, str(x)[:200])


def seed_rngs(s):
    np.random.seed(s & 0x7FFFFFFF)
