"""Cases, calls and exact distributions for the photon-number and click samplers (C05, C07, C08)."""
import random
from forked import np
import core
from statprop import state_of, adjacency

HBARS = (2, 2, 2.0, 1, 1.0, 0.5, 1.7)


def gen(rng, which, big=True):
    """A case: function, state, limits.  which: 'haf' or 'tor'."""
    fn = "graph" if rng.random() < 0.25 else "state"
    n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5] if big else [1, 1, 1, 2])
    if fn == "graph":
        n = max(n, 2) if rng.random() < 0.85 else n
        kind = rng.choice(["graphr", "graphc", "graph01"]) if n > 1 else "graphc"
    else:
        kind = rng.choice(["rand", "rand", "rand", "pure", "pure", "sq", "coh", "therm", "vac", "tms", "split", "split", "prod"])
    c = dict(which=which, fn=fn, n=n, kind=kind, hbar=rng.choice(HBARS), sseed=rng.getrandbits(40), mean="given",
             n_mean=round(rng.uniform(0.1, 0.7), 3), rseed=rng.getrandbits(31))
    if fn == "graph":
        c["hbar"] = 2
    elif kind in ("sq", "therm", "tms") and rng.random() < 0.5:
        c["mean"] = "none"
    c["limit"] = rng.choice([None, None, 30, 0, 1, 2, 3, 4])
    strong = big and rng.random() < 0.5         # larger photon numbers and correlations show more of a bias
    if strong:
        c["amp"] = rng.choice([1.5, 1.8, 2.0])
        c["n_mean"] = round(rng.uniform(0.5, 1.2), 3)
        c["limit"] = rng.choice([None, None, None, 30, 3, 5, 8])
    if which == "haf":
        c["cutoff"] = rng.choice([14, 16, 20] if n < 3 else [10, 12]) if strong else rng.choice([None, 5, 7, 10, 14] if n < 3 else [None, 5, 7])
    else:
        c["fanout"], c["cutoff"] = rng.choice([(30, 4), (12, 6), (8, 8)]) if strong else rng.choice([(None, None), (10, 1), (40, 1), (1, 8), (2, 6), (4, 4), (10, 2), (3, 5), (100, 1)])
    return c


def exact(c):
    """(P, slack, accepted mass): the distribution the samples must have."""
    import dist, ref
    if c["fn"] == "graph":
        mu, V, h = np.zeros(2 * c["n"]), dist.graph_state(adjacency(c), c["n_mean"]), 2
    else:
        mu, V = state_of(c)
        h = c["hbar"]
        if c["mean"] == "none":
            mu = np.zeros_like(mu)
    n = c["n"]
    marg = [dist.marginal(mu, V, h, i) for i in range(n)]
    lim = 30 if c["limit"] is None else c["limit"]
    if c["which"] == "haf":
        cut = 5 if c["cutoff"] is None else c["cutoff"]
        tv = sum(max(0.0, 1 - m[: cut + 1].sum()) for m in marg) + marg[-1][cut]
        K = min(lim, 6)
        while True:
            P = dist.photons(mu, V, h, K)
            if K >= lim or 1 - sum(P.values()) < 3e-4 or K >= (16 if n < 3 else 11):
                break
            K += 2
        if K >= lim:
            acc = sum(p for r, p in P.items() if sum(r) <= lim)
            P = {r: p / acc for r, p in P.items() if sum(r) <= lim}
        else:
            acc = 1.0
        P = {r: p for r, p in P.items() if max(r) <= cut}
        if acc > 0:
            tv = 2 * tv / acc
        return P, tv, acc
    fo = 10 if c["fanout"] is None else c["fanout"]
    cut = 1 if c["cutoff"] is None else c["cutoff"]
    # total variation caused by allowing at most `cut` photons per sub-detector
    from scipy.special import comb
    tv = sum(float(np.sum(m * comb(np.arange(len(m)), cut + 1))) * fo ** -cut for m in marg)
    P = dist.clicks(mu, V, h)
    acc = sum(p for r, p in P.items() if sum(r) <= lim)
    P = {r: p / acc for r, p in P.items() if sum(r) <= lim}
    return P, 2 * tv / acc, acc


def call(c, samples, extra=None):
    """Make the sampling call. Returns the array."""
    import thewalrus.samples as S
    kw = dict(extra or {})
    if c["which"] == "haf":
        if c["cutoff"] is not None:
            kw["cutoff"] = c["cutoff"]
        if c["limit"] is not None:
            kw["max_photons"] = c["limit"]
        if c["fn"] == "graph":
            return S.hafnian_sample_graph(adjacency(c), c["n_mean"], samples=samples, **kw)
        mu, V = state_of(c)
        if c["mean"] != "none":
            kw["mean"] = mu
        return S.hafnian_sample_state(V, samples, hbar=c["hbar"], **kw)
    if c["cutoff"] is not None:
        kw["cutoff"] = c["cutoff"]
        kw["fanout"] = c["fanout"]
    if c["limit"] is not None:
        kw["max_photons"] = c["limit"]
    if c["fn"] == "graph":
        return S.torontonian_sample_graph(adjacency(c), c["n_mean"], samples=samples, **kw)
    mu, V = state_of(c)
    if c["mean"] != "none":
        kw["mu"] = mu
    return S.torontonian_sample_state(V, samples, hbar=c["hbar"], **kw)


def impossible(c, row):
    """Rows that cannot occur in the structured states, whatever the random stream."""
    if c["which"] != "haf":
        return False
    if c["kind"] == "sq":
        return any(x % 2 for x in row)
    if c["kind"] == "tms":
        nz = [x for x in row if x]
        return len(nz) not in (0, 2) or (len(nz) == 2 and nz[0] != nz[1])
    if c["fn"] == "graph" or (c["kind"] == "pure" and c["mean"] == "none"):
        return sum(row) % 2 == 1
    return False


def valid(c, out, samples, P=None):
    """Shape, type, limits and possibility of every row; None or what is wrong."""
    n = c["n"]
    if not isinstance(out, np.ndarray):
        return "result is a %s, not an array" % type(out).__name__
    if out.shape != (samples, n):
        return "result has shape %s, requested %d samples of %d modes" % (out.shape, samples, n)
    if out.dtype.kind not in "iu":
        return "result has dtype %s" % out.dtype
    if samples == 0:
        return None
    if out.min() < 0:
        return "negative entry in row %s" % out[np.argmin(out.min(axis=1))].tolist()
    lim = 30 if c["limit"] is None else c["limit"]
    t = out.sum(axis=1)
    if t.max() > lim:
        return "row %s exceeds the requested total of %d" % (out[np.argmax(t)].tolist(), lim)
    cut = (5 if c["cutoff"] is None else c["cutoff"]) if c["which"] == "haf" else 1
    if out.max() > cut:
        return "row %s has an entry above %d" % (out[np.argmax(out.max(axis=1))].tolist(), cut)
    for row in {tuple(int(x) for x in r) for r in out}:
        if impossible(c, row):
            return "row %s is impossible in this state" % (row,)
    if P is not None:
        for row in {tuple(int(x) for x in r) for r in out}:
            p = P.get(row)
            if p is not None and p < 1e-13:
                return "row %s has probability %.1g in this state" % (row, p)
    return None


def shrink(c):
    for k, v in (("mean", "none"), ("limit", None), ("hbar", 2)):
        if c.get(k) != v and not (k == "mean" and c["kind"] not in ("sq", "therm", "tms")):
            yield dict(c, **{k: v})
