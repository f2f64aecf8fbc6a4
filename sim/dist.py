"""Exact outcome distributions of Gaussian states as dictionaries, from ref.py's models."""
import math, itertools
import numpy as np
import ref


def photons(mu, cov, hbar, K, per_mode=None):
    """{pattern: probability} for all patterns of at most K photons in total."""
    n = len(mu) // 2
    A, g, p0 = ref.husimi_A(mu, cov, hbar)
    AA = [[complex(A[i, j]) for j in range(2 * n)] for i in range(2 * n)]
    gg = [complex(x) for x in g]
    memo = {(0,) * (2 * n): 1.0 + 0j}
    disp = any(abs(x) > 1e-14 for x in gg)

    def go(r):
        v = memo.get(r)
        if v is not None:
            return v
        i = 0
        while r[i] == 0:
            i += 1
        q = list(r)
        q[i] -= 1
        tot = gg[i] * go(tuple(q)) if disp else 0.0
        for j in range(2 * n):
            if q[j] and AA[i][j] != 0:
                q[j] -= 1
                tot += AA[i][j] * (q[j] + 1) * go(tuple(q))
                q[j] += 1
        memo[r] = tot
        return tot

    P = {}
    for k in range(K + 1):
        for pat in ref.compositions(k, n):
            f = 1
            for x in pat:
                f *= math.factorial(x)
            P[pat] = max(0.0, (p0 * go(pat * 2)).real / f)
    return P


def marginal(mu, cov, hbar, mode, K=60):
    """Photon-number distribution of one mode (array, 0..K), by the recurrence for 2x2 blocks."""
    n = len(mu) // 2
    ix = [mode, mode + n]
    A, g, p0 = ref.husimi_A(mu[ix], cov[np.ix_(ix, ix)], hbar)
    # G[a,b]: loop hafnian with a bras and b kets; a_{a+1,b} = g0 G[a,b] + A00 a G[a-1,b] + A01 b G[a,b-1]
    # normalised by sqrt(a! b!) to avoid overflow
    H = np.zeros((K + 1, K + 1), complex)
    H[0, 0] = 1
    for a in range(K + 1):
        if a:
            b = 0
            H[a, 0] = (g[0] * H[a - 1, 0] + (A[0, 0] * math.sqrt(a - 1) * H[a - 2, 0] if a > 1 else 0)) / math.sqrt(a)
        for b in range(1, K + 1):
            H[a, b] = (g[1] * H[a, b - 1] + (A[1, 1] * math.sqrt(b - 1) * H[a, b - 2] if b > 1 else 0)
                       + (A[1, 0] * math.sqrt(a) * H[a - 1, b - 1] if a else 0)) / math.sqrt(b)
    return np.clip((p0 * np.diag(H)).real, 0, None)


def clicks(mu, cov, hbar):
    n = len(mu) // 2
    return {d: max(0.0, ref.click_prob(mu, cov, d, hbar)) for d in itertools.product((0, 1), repeat=n)}


def graph_state(A, n_mean):
    """Covariance matrix (hbar=2) of the pure state of adjacency cA with the given mean photon number."""
    A = np.asarray(A, dtype=complex)
    n = A.shape[0]
    s = np.linalg.svd(A, compute_uv=False)
    lo, hi = 0.0, 1 / s.max()
    for _ in range(200):
        c = (lo + hi) / 2
        x = (c * s) ** 2
        if np.any(x >= 1) or np.sum(x / (1 - x)) > n_mean:
            hi = c
        else:
            lo = c
    B = (lo + hi) / 2 * A
    Z = np.zeros((n, n))
    X = np.block([[Z, np.eye(n)], [np.eye(n), Z]])
    AA = np.block([[B, Z], [Z, B.conj()]])
    Q = np.linalg.inv(np.eye(2 * n) - X @ AA)
    sig = Q - 0.5 * np.eye(2 * n)            # ordering (a, a*)
    R = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]]) / 2
    Ri = np.linalg.inv(R)
    V = (Ri @ sig @ Ri.conj().T).real
    return 0.5 * (V + V.T)


def sq_photons(r, K):
    """Photon numbers 0..K of a squeezed vacuum."""
    p = np.zeros(K + 1)
    t = math.tanh(abs(r)) ** 2
    for k in range(K // 2 + 1):
        p[2 * k] = math.exp(math.lgamma(2 * k + 1) - 2 * math.lgamma(k + 1)) * (t / 4) ** k / math.cosh(r)
    return p


def multinomial(n, q):
    """{counts: prob} of n throws."""
    m = len(q)
    out = {}
    for c in ref.compositions(n, m):
        p = math.factorial(n)
        for x, qq in zip(c, q):
            p = p / math.factorial(x) * qq ** x
        out[c] = p
    return out


def convolve(P, Q, K):
    out = {}
    for a, p in P.items():
        for b, q in Q.items():
            if p * q > 0:
                c = tuple(x + y for x, y in zip(a, b))
                if sum(c) <= K:
                    out[c] = out.get(c, 0) + p * q
    return out
