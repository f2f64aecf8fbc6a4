"""Classically simulable samplers have the exact distribution; non-classical states are refused."""
import random, contextlib
from forked import np
import core
from statprop import StatProp, resets
from core import Outcome, digest

KINDS = ("hafcl", "hafcl", "torcl", "torcl", "rank1", "pns", "pns_oob", "thermal", "thermal_adj", "dist", "dist", "refuse")


class Prop(StatProp):
    ID = "C09"
    GROUPS = {"py": 8}
    BUDGET = {"quick": 28, "thorough": 400}
    RULE = ("one run = one sampler (classical Gaussian photon and click samples, rank-one graphs, probability tensors, thermal "
            "samples, distinguishable squeezers) with one state, random stream and division of 300-12000 samples into calls, tested "
            "against exact probabilities; or a non-classical covariance matrix that must be refused; or an adversarial stream; "
            "non-trivial = more than one possible outcome; distinct = distinct cases")
    PROBES = ["rows", "adversarial_rows", "refusals", "events", "k_hafcl", "k_torcl", "k_rank1", "k_pns", "k_pns_oob", "k_thermal", "k_thermal_adj", "k_dist"]

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        c = dict(kind=rng.choice(KINDS), n=rng.choice([1, 1, 2, 2, 3]), hbar=rng.choice([2, 2.0, 1, 0.5, 1.7]), sseed=rng.getrandbits(40),
                 rseed=rng.getrandbits(31), mean=rng.random() < 0.6, flavour=rng.choice(["rand", "rand", "iso", "edge", "edge", "split", "split", "diag", "coh"]),
                 N=rng.choice([300, 1000, 4000, 12000]), stream="adv" if rng.random() < 0.15 else "mt")
        c["chunk"] = rng.choice([c["N"], c["N"], 100, 7])
        if c["kind"] == "dist":
            c["N"] = min(c["N"], 4000)
        if c["chunk"] == 7:
            c["N"] = min(c["N"], 1000)
        if c["stream"] == "adv":
            c["N"], c["chunk"] = 200, 50
        return c

    def classical(self, c, r):
        n, h = c["n"], c["hbar"]
        mu = r.uniform(-0.6, 0.6, size=2 * n) * np.sqrt(2 * h)
        if c["flavour"] == "iso":
            V = h / 2 * np.eye(2 * n) * (1 + r.uniform(0, 0.6))
        elif c["flavour"] == "edge":      # noise in some directions only
            B = r.normal(size=(2 * n, max(1, n)))
            V = h / 2 * np.eye(2 * n) + h * 0.1 * B @ B.T
        elif c["flavour"] == "split":     # one noisy mode on balanced splitters with phases that are multiples of 90 degrees
            from statprop import orth
            d = np.zeros(2 * n)
            d[0], d[n] = r.uniform(0.2, 1.2), r.choice([0, 0, 0.3])
            O = np.eye(2 * n)
            for b in range(1, n):
                B = np.eye(n, dtype=complex)
                f = 1j ** int(r.integers(4))
                B[0, 0] = B[b, b] = np.sqrt(0.5)
                B[0, b], B[b, 0] = np.sqrt(0.5) * f, -np.sqrt(0.5) * np.conj(f)
                O = orth(B) @ O
            O = orth(np.eye(n)[r.permutation(n)]) @ O
            V = h / 2 * (np.eye(2 * n) + O @ np.diag(d) @ O.T)
        elif c["flavour"] == "diag":
            V = h / 2 * np.diag(1 + r.choice([0, 0.3, 0.8, 0.8], size=2 * n))
        elif c["flavour"] == "coh":
            V = h / 2 * np.eye(2 * n)
            mu = mu * (r.random(2 * n) < 0.5)
        else:
            B = r.normal(size=(2 * n, 2 * n))
            V = h / 2 * np.eye(2 * n) + h * 0.1 * B @ B.T
        return mu, 0.5 * (V + V.T)

    def build(self, c):
        """(sampler of k rows, {outcome: probability}, slack, valid(row array))"""
        import thewalrus.samples as S
        import dist, ref
        r = np.random.default_rng(c["sseed"])
        n, h, kind = c["n"], c["hbar"], c["kind"]
        if kind in ("hafcl", "torcl"):
            mu, V = self.classical(c, r)
            kw = dict(hbar=h)
            if c["mean"]:
                kw["mean"] = mu
            m = mu if c["mean"] else np.zeros(2 * n)
            if kind == "hafcl":
                P = self.enough(lambda K: dist.photons(m, V, h, K), n)
                return (lambda k: S.hafnian_sample_classical_state(V, k, **kw)), P, None
            return (lambda k: S.torontonian_sample_classical_state(V, k, **kw)), dist.clicks(m, V, h), 1
        if kind == "rank1":
            G = r.normal(size=n + 1) + (1j * r.normal(size=n + 1) if c["mean"] else 0)
            if c["flavour"] == "edge":
                G[0] = 0
            nm = float(r.uniform(0.1, 1.0))
            w = np.abs(G) ** 2 / np.sum(np.abs(G) ** 2)
            sq = dist.sq_photons(np.arcsinh(np.sqrt(nm)), 60)
            def P(K):
                out = {}
                for t in range(0, K + 1):
                    for a, p in dist.multinomial(t, w).items():
                        out[a] = p * sq[t]
                return out
            G0 = G.copy()
            return (lambda k: S.hafnian_sample_graph_rank_one(G0, nm, samples=k)), self.enough(P, n), None
        if kind in ("pns", "pns_oob"):
            cut = int(r.integers(2, 5))
            if n == 1:
                cut += 2
            p = r.random((cut,) * n) ** 3
            if c["flavour"] == "edge":
                p[r.random(p.shape) < 0.4] = 0
                p.flat[0] = 0.1
            p = p / p.sum()
            mass = 1.0
            if kind == "pns_oob":
                mass = float(r.uniform(0.3, 0.95))
                p = p * mass
            elif c["flavour"] == "iso":
                p = p * float(r.uniform(0.2, 0.9))      # renormalised by the sampler
                mass = p.sum()
            else:
                mass = p.sum()
            oob = False if kind == "pns" else (-1 if c["mean"] else -7)
            P = {tuple(int(i) for i in ix): float(p[ix]) / (mass if kind == "pns" else 1) for ix in np.ndindex(*p.shape)}
            if kind == "pns_oob":
                P[(oob,) * n] = 1 - mass
            f = lambda k: S.photon_number_sampler(p, k, out_of_bounds=oob)
            def g(k):
                o = f(k)
                if len(o) != k:
                    return o
                return [tuple(x) if isinstance(x, tuple) else ((x,) * n if np.ndim(x) == 0 else tuple(x)) for x in o]
            return g, P, None
        if kind in ("thermal", "thermal_adj"):
            import thewalrus.csamples as CS
            if kind == "thermal_adj":
                B = r.normal(size=(n, n))
                A = B @ B.T
                nm = float(r.uniform(0.2, 0.8))
                w, U = np.linalg.eigh(A)
                lo, hi = 0.0, 1 / w.max()
                for _ in range(200):
                    x = (lo + hi) / 2
                    v = x * np.clip(w, 0, None)
                    if np.any(v >= 1) or np.sum(v / (1 - v)) > nm:
                        hi = x
                    else:
                        lo = x
                nb = v / (1 - v)
                Vc = 0.5 * np.kron(np.eye(2), U @ np.diag(1 + 2 * nb) @ U.T) * 2
                ls, O = CS.rescale_adjacency_matrix_thermal(A, nm)
            else:
                ls = r.uniform(0, 0.35, size=n)
                if c["flavour"] == "edge":
                    ls[0] = 0
                O = ref.rand_unitary(r, n, real=not c["mean"])
                nb = ls / (1 - ls)
                X = O @ np.diag(1 + 2 * nb) @ O.conj().T
                Vc = np.block([[X.real, -X.imag], [X.imag, X.real]])
            P = self.enough(lambda K: dist.photons(np.zeros(2 * n), Vc, 2, K), n)
            return (lambda k: CS.generate_thermal_samples(ls, O, num_samples=k)), P, None
        if kind == "dist":
            from thewalrus.quantum import distinguishable_squeezers as D
            U = ref.rand_unitary(r, n)
            if c["flavour"] == "iso":
                T = U
            elif c["flavour"] == "edge":
                T = ref.rand_unitary(r, n) @ np.diag(np.sqrt(r.uniform(0.1, 1, size=n))) @ U
            else:
                T = U * np.sqrt(r.uniform(0.3, 1))
            rs = r.uniform(-0.6, 0.6, size=n) if c["mean"] else r.uniform(0.1, 0.6, size=n)
            cut = int(r.choice([8, 9, 20, 50]))
            K = 8 if n == 3 else 12
            tot = {(0,) * n: 1.0}
            from math import comb
            for i in range(n):
                p = dist.sq_photons(rs[i], cut - 1)
                p = p / p.sum()
                eta = min(1.0, float(np.sum(np.abs(T[:, i]) ** 2)))
                q = np.abs(T[:, i]) ** 2 / np.sum(np.abs(T[:, i]) ** 2)
                one = {}
                for t in range(K + 1):
                    pt = sum(p[N] * comb(N, t) * eta**t * (1 - eta) ** (N - t) for N in range(t, cut))
                    for a, w in dist.multinomial(t, q).items():
                        one[a] = w * pt
                tot = dist.convolve(tot, one, K)
            kw = {} if cut == 50 and c["flavour"] == "rand" else dict(input_cutoff=cut)
            return (lambda k: D.sample(T, rs, n_samples=k, **kw)), tot, None
        raise core.HarnessError(kind)

    def enough(self, f, n):
        K = 6
        while True:
            P = f(K)
            if 1 - sum(P.values()) < 1e-4 or K >= (24 if n == 1 else 14 if n == 2 else 10):
                return P
            K += 4

    def run_in_child(self, group, c):
        import stats, streams
        st = dict(rows=0, adversarial_rows=0, refusals=0, events=0, calls=0)
        st["k_" + c["kind"]] = 1
        self.hook.off()
        if c["kind"] == "refuse":
            bad = self.refuse(c, st)
            return Outcome(viol=bad, vclass="not-refused" if bad else None, stats=st, key=digest(c), trivial=False, digest=digest(bad), note="refusal")
        f, P, cap = self.build(c)
        adv = c["stream"] == "adv"
        np.random.seed(c["rseed"])
        out, bad, left = [], None, c["N"]
        m = len(next(iter(P)))
        with (streams.Adversary(c["rseed"]) if adv else contextlib.nullcontext()):
            while left and bad is None:
                k = min(left, c["chunk"])
                o = f(k)
                st["calls"] += 1
                if len(o) != k:
                    bad = "returned %d rows, %d were requested" % (len(o), k)
                    break
                for row in o:
                    row = tuple(row)
                    if len(row) != m:
                        bad = "row %s does not have %d entries" % (row, m)
                        break
                    q = tuple(int(x) for x in row)
                    if any(x != y for x, y in zip(q, row)) or (min(q) < 0 and q not in P):
                        bad = "row %s is not a tuple of photon numbers" % (row,)
                        break
                    if cap is not None and max(q) > cap:
                        bad = "row %s has an entry above %d" % (q, cap)
                        break
                    if q in P and (P[q] == 0.0 if adv else P[q] < 1e-15) and (not adv or c["kind"] in ("pns", "pns_oob", "rank1", "dist")):
                        bad = "row %s has probability %.2g" % (q, P[q])
                        break
                    out.append(q)
                left -= k
        vc = "invalid-row" if bad else None
        st["adversarial_rows" if adv else "rows"] += len(out)
        small = None
        if bad is None and not adv:
            T = stats.Tests()
            stats.discrete(T, out, P, 0.0)
            st["events"] += len(T.t)
            bad = T.verdict()
            small = T.smallest()
            vc = "distribution" if bad else None
            if bad is None and resets(lambda: f(2), c["rseed"]):
                bad, vc = "the call sets the random stream to a fixed state: later samples are not independent", "reset"
        if bad:
            bad = "%s (n=%d, hbar=%s, %s): %s" % (c["kind"], c["n"], c["hbar"], c["flavour"], bad)
        return Outcome(viol=bad, vclass=vc, stats=st, key=digest(c), trivial=max(P.values()) > 0.9999,
                       digest=digest(out, small), note="%s smallest p-value %s" % (c["kind"], small))

    def refuse(self, c, st):
        """A covariance matrix with a direction below vacuum noise, made classical-looking by rotations and noise elsewhere."""
        import thewalrus.samples as S
        import ref
        from statprop import orth
        r = np.random.default_rng(c["sseed"])
        n, h = c["n"], c["hbar"]
        s = np.zeros(n)
        s[int(r.integers(n))] = r.uniform(0.05, 0.8)
        O = orth(ref.rand_unitary(r, n)) if c["flavour"] != "iso" else np.eye(2 * n)
        d = np.concatenate([np.exp(-2 * s), np.exp(2 * s)])
        extra = np.where(d < 1, 0, r.uniform(0, 1, size=2 * n))
        V = h / 2 * O @ np.diag(d + extra) @ O.T
        V = 0.5 * (V + V.T)
        for f in (S.hafnian_sample_classical_state, S.torontonian_sample_classical_state):
            try:
                np.random.seed(c["rseed"])
                kw = dict(mean=r.uniform(-1, 1, size=2 * n)) if c["mean"] else {}
                o = f(V, 3, hbar=h, **kw)
            except ValueError:
                st["refusals"] += 1
                continue
            return "%s returned %s for a covariance matrix with smallest eigenvalue %.4g, vacuum noise is %.4g" % (
                f.__name__, np.asarray(o).tolist(), np.linalg.eigvalsh(V)[0], h / 2)
        return None
