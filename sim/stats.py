"""Exact tests of samples against an exactly known distribution.

Every test is a two-sided exact binomial test of the number of occurrences of one
event among n independent draws; a case fails when one event's p-value is below
ALPHA divided by the number of events tested.  With ALPHA = 1e-10 a check of ten
thousand cases on a correct sampler raises a false alarm with probability 1e-6.
"""
import math
ALPHA = 1e-10


def pvalue(k, n, lo, hi):
    """Largest two-sided binomial p-value of k in n over success probabilities in [lo, hi]."""
    from scipy.special import betainc
    lo, hi = min(max(lo, 0.0), 1.0), min(max(hi, 0.0), 1.0)
    f = k / n
    if lo <= f <= hi:
        return 1.0
    if f > hi:      # P(X >= k) at hi
        return 0.0 if hi == 0 else min(1.0, 2 * float(betainc(k, n - k + 1, hi)))
    return 0.0 if lo == 1 else min(1.0, 2 * float(betainc(n - k, k + 1, 1 - lo)))     # P(X <= k) at lo


class Tests:
    def __init__(self):
        self.t = []

    def add(self, name, k, n, p, slack=0.0):
        """k occurrences in n draws of an event of probability within slack of p."""
        if n:
            slack = slack + 1e-9
            self.t.append((pvalue(int(k), int(n), p - slack, p + slack), name, int(k), int(n), float(p)))

    def verdict(self):
        if not self.t:
            return None
        w = min(self.t)
        if w[0] * len(self.t) < ALPHA:
            return "%s occurred %d times in %d draws, its exact probability is %.6g (chance of such a deviation %.1g, %d events tested)" % (
                w[1], w[2], w[3], w[4], w[0], len(self.t))
        return None

    def smallest(self):
        return min(self.t)[0] if self.t else 1.0


def discrete(T, rows, P, slack=0.0):
    """rows: list of tuples; P: {tuple: probability} (mass not listed is 'elsewhere').
    Tests cells, totals, marginals and the independence of neighbouring and distant rows."""
    n = len(rows)
    cnt = {}
    for r in rows:
        cnt[r] = cnt.get(r, 0) + 1
    mass = sum(P.values())
    elsewhere = sum(v for r, v in cnt.items() if r not in P)
    T.add("an outcome outside the support", elsewhere, n, max(0.0, 1 - mass), slack)
    cells = [r for r, p in P.items() if p * n >= 0.5 or r in cnt]
    for r in cells:
        T.add("outcome %s" % (r,), cnt.get(r, 0), n, P[r], slack)
    m = len(next(iter(P)))
    marg = [dict() for _ in range(m)]
    mc = [dict() for _ in range(m)]
    tot, tc = {}, {}
    for r, p in P.items():
        for i in range(m):
            marg[i][r[i]] = marg[i].get(r[i], 0) + p
        tot[sum(r)] = tot.get(sum(r), 0) + p
    for r, v in cnt.items():
        if len(r) != m:
            continue
        for i in range(m):
            mc[i][r[i]] = mc[i].get(r[i], 0) + v
        tc[sum(r)] = tc.get(sum(r), 0) + v
    if m > 1:
        for i in range(m):
            for k, p in marg[i].items():
                T.add("value %s in mode %d" % (k, i), mc[i].get(k, 0), n, p, slack + max(0.0, 1 - mass))
    for k, p in tot.items():
        T.add("total %s" % (k,), tc.get(k, 0), n, p, slack + max(0.0, 1 - mass))
    odd = sum(p for k, p in tot.items() if k % 2)
    T.add("an odd total", sum(v for k, v in tc.items() if k % 2), n, odd, slack + max(0.0, 1 - mass))
    # independence: pairs that do not overlap
    s2 = 2 * slack + 2 * max(0.0, 1 - mass)
    eq = sum(p * p for p in P.values())
    top = sorted(P, key=lambda r: -P[r])[:3]
    for what, pairs in (("neighbouring rows", [(rows[i], rows[i + 1]) for i in range(0, n - 1, 2)]),
                        ("rows half the batch apart", [(rows[i], rows[i + n // 2]) for i in range(n // 2)])):
        T.add("equality of %s" % what, sum(a == b for a, b in pairs), len(pairs), eq, s2)
        for r in top:
            for q in top:
                T.add("%s equal to %s, %s" % (what, r, q), sum(a == r and b == q for a, b in pairs), len(pairs), P[r] * P[q], s2)
    return T


def conditional(P, keep):
    """P restricted to outcomes satisfying keep, renormalised; also the accepted mass."""
    Q = {r: p for r, p in P.items() if keep(r)}
    a = sum(Q.values())
    return {r: p / a for r, p in Q.items()}, a
