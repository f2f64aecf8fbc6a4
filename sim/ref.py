"""Small reference models, written from the definitions, independent of the code under test."""
import math, itertools
from functools import lru_cache
import numpy as np


def lhaf(A, D, reps, loop=True):
    """Loop hafnian of A with row/column i repeated reps[i] times, loops D (sum over matchings with loops)."""
    n = len(reps)
    A = [[A[i][j] for j in range(n)] for i in range(n)]
    D = list(D) if loop else None
    memo = {}

    def go(r):
        v = memo.get(r)
        if v is not None:
            return v
        i = 0
        while i < n and r[i] == 0:
            i += 1
        if i == n:
            return 1
        q = list(r)
        q[i] -= 1
        tot = 0
        if loop:
            tot = D[i] * go(tuple(q))
        for j in range(i, n):
            if q[j]:
                q[j] -= 1
                tot = tot + A[i][j] * (q[j] + 1) * go(tuple(q))
                q[j] += 1
        memo[r] = tot
        return tot

    return go(tuple(int(x) for x in reps))


def haf(A, reps):
    if sum(reps) % 2:
        return 0
    return lhaf(A, None, reps, loop=False)


def perm(A):
    """Permanent by expansion over subsets."""
    n = len(A)
    if n == 0:
        return 1
    cur = {0: 1}
    for i in range(n):
        nxt = {}
        for m, v in cur.items():
            for j in range(n):
                if not m >> j & 1:
                    k = m | 1 << j
                    nxt[k] = nxt.get(k, 0) + v * A[i][j]
        cur = nxt
    return cur[(1 << n) - 1]


def brs(A, E):
    m, n = A.shape
    tot = 0
    for mask in range(2**m):
        rows = [i for i in range(m) if mask >> i & 1]
        Ay = A[rows, :]
        tot = tot + (-1) ** (m - len(rows)) * perm(Ay.conj().T @ Ay + E)
    return tot


def compositions(n, k):
    if k == 0:
        if n == 0:
            yield ()
        return
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


def sqrtm_psd(M):
    w, v = np.linalg.eigh(M)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def fock_threshold(n_in, d, T):
    """Click-pattern probability by enumerating the photon-number outputs of a lossless dilation."""
    Mo, Mi = T.shape
    E = np.eye(Mi) - T.conj().T @ T
    V = np.vstack([T, sqrtm_psd(E)])
    cols = [i for i, k in enumerate(n_in) for _ in range(k)]
    N = len(cols)
    fin = math.prod(math.factorial(k) for k in n_in)
    tot = 0.0
    for out in compositions(N, V.shape[0]):
        if any((out[i] > 0) != bool(d[i]) for i in range(Mo)):
            continue
        rows = [i for i, k in enumerate(out) for _ in range(k)]
        amp = perm([[V[r, c] for c in cols] for r in rows])
        tot += abs(amp) ** 2 / fin / math.prod(math.factorial(k) for k in out)
    return tot


def ltor(O, gamma):
    N = O.shape[0] // 2
    tot = 0
    for mask in range(2**N):
        X = [i for i in range(N) if mask >> i & 1]
        r = X + [i + N for i in X]
        M = np.eye(len(r)) - O[np.ix_(r, r)]
        g = gamma[r]
        e = np.exp(0.5 * g @ np.linalg.solve(M, g.conj())) if len(r) else 1.0
        det = np.linalg.det(M).real if len(r) else 1.0
        tot = tot + (-1) ** (N - len(X)) * e / np.sqrt(det + 0j)
    return tot


def vacuum_prob(mu, cov, modes, hbar):
    """Probability that the given modes of a Gaussian state are in vacuum."""
    n = len(mu) // 2
    ix = [m for m in modes] + [m + n for m in modes]
    if not ix:
        return 1.0
    S = cov[np.ix_(ix, ix)] + hbar / 2 * np.eye(len(ix))
    x = mu[ix]
    return math.exp(-0.5 * x @ np.linalg.solve(S, x)) / math.sqrt(np.linalg.det(S / hbar))


def click_prob(mu, cov, d, hbar):
    """Click-pattern probability by inclusion-exclusion over vacuum projections."""
    C = [i for i, v in enumerate(d) if v]
    V = [i for i, v in enumerate(d) if not v]
    tot = 0.0
    for k in range(len(C) + 1):
        for S in itertools.combinations(C, k):
            tot += (-1) ** k * vacuum_prob(mu, cov, sorted(V + list(S)), hbar)
    return tot


def gaussian_fock(mu, cov, cutoff, hbar):
    """Photon-number distribution tensor (0..cutoff per mode) of a Gaussian state by the
    generating-function recurrence (density-matrix diagonal through the loop-hafnian definition)."""
    n = len(mu) // 2
    A, g, p0 = husimi_A(mu, cov, hbar)
    out = np.zeros((cutoff + 1,) * n)
    # one memoised recursion over all (bra, ket) occupations
    AA = [[complex(A[i, j]) for j in range(2 * n)] for i in range(2 * n)]
    gg = [complex(x) for x in g]
    memo = {}

    def go(r):
        v = memo.get(r)
        if v is not None:
            return v
        i = 0
        while i < 2 * n and r[i] == 0:
            i += 1
        if i == 2 * n:
            return 1.0 + 0j
        q = list(r)
        q[i] -= 1
        tot = gg[i] * go(tuple(q))
        for j in range(2 * n):
            if q[j]:
                q[j] -= 1
                tot += AA[i][j] * (q[j] + 1) * go(tuple(q))
                q[j] += 1
        memo[r] = tot
        return tot

    import sys
    for pat in itertools.product(range(cutoff + 1), repeat=n):
        f = math.prod(math.factorial(k) for k in pat)
        out[pat] = (p0 * go(tuple(pat) * 2)).real / f
    return out


def husimi_A(mu, cov, hbar):
    """Adjacency matrix, loop vector and vacuum probability, from the Q function in the a, a^dagger basis."""
    n = len(mu) // 2
    # transformation (x,p) -> (a, a*)
    I = np.eye(n)
    R = np.block([[I, 1j * I], [I, -1j * I]]) / np.sqrt(2 * hbar)
    sig = R @ cov @ R.conj().T
    Q = sig + 0.5 * np.eye(2 * n)
    alpha = R @ mu
    X = np.block([[0 * I, I], [I, 0 * I]])
    Qi = np.linalg.inv(Q)
    A = X @ (np.eye(2 * n) - Qi)
    g = alpha.conj() @ Qi
    p0 = np.exp(-0.5 * alpha.conj() @ Qi @ alpha).real / np.sqrt(np.linalg.det(Q).real)
    return A, g, p0


def rand_unitary(rng, n, real=False):
    z = rng.normal(size=(n, n)) + (0 if real else 1j) * rng.normal(size=(n, n))
    q, r = np.linalg.qr(z)
    d = np.diag(r)
    return q * (d / np.abs(d))


def rand_state(rng, n, hbar=2.0, rmax=0.6, nth=0.3, disp=0.7, pure=None, displaced=None, loss=None):
    """A valid Gaussian state (mu, cov) built from squeezing, interferometers, noise and displacement."""
    pure = rng.random() < 0.5 if pure is None else pure
    displaced = rng.random() < 0.5 if displaced is None else displaced

    def orth(U):
        return np.block([[U.real, -U.imag], [U.imag, U.real]])

    r = rng.uniform(-rmax, rmax, size=n)
    S = orth(rand_unitary(rng, n)) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ orth(rand_unitary(rng, n))
    nb = np.zeros(n) if pure else rng.uniform(0, nth, size=n)
    V = hbar / 2 * S @ np.diag(np.tile(1 + 2 * nb, 2)) @ S.T
    V = 0.5 * (V + V.T)
    mu = rng.uniform(-disp, disp, size=2 * n) * np.sqrt(2 * hbar) if displaced else np.zeros(2 * n)
    return mu, V
