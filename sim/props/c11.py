"""Random matrix generators: structure for every stream, Haar measure."""
import random, contextlib
from forked import np
import core
from statprop import StatProp
from core import Outcome, digest


class Prop(StatProp):
    ID = "C11"
    GROUPS = {"py": 8}
    BUDGET = {"quick": 25, "thorough": 300}
    RULE = ("one run = 5-60 matrices from one generator (arguments, size up to 8, hbar, bandwidth, options) and one random stream, seeded or "
            "adversarial (tails of eight standard deviations, near-zeros), structure checked for each; or 2000-20000 random interferometers "
            "whose entry moduli, phases and products are tested against the Haar measure; non-trivial = at least one matrix; distinct = distinct cases")
    PROBES = ["matrices", "adversarial", "haar_draws", "events", "k_interferometer", "k_symplectic", "k_covariance", "k_block", "k_banded", "seeds_differ"]

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        kind = rng.choice(["interferometer", "symplectic", "covariance", "block", "banded", "haar", "haar"])
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
        c = dict(kind=kind, n=n, a=rng.random() < 0.5, b=rng.random() < 0.5, hbar=rng.choice([2, 2.0, 1, 0.5, 1.7, 4.0]), rseed=rng.getrandbits(31),
                 stream=rng.choice(["mt", "adv", "adv"]), N=rng.choice([5, 20, 60]), scale=rng.choice([1.0, 0.3, 0.0, 1.5]), defaults=rng.random() < 0.25)
        if kind == "banded":
            c["w"] = rng.randint(0, n)
        if kind == "haar":
            c["n"] = rng.choice([1, 2, 2, 3, 4])
            c["stream"] = "mt"
            c["N"] = rng.choice([2000, 6000, 20000])
            c["via"] = rng.choice(["interferometer", "interferometer", "passive", "block", "banded"])
        return c

    def run_in_child(self, group, c):
        import streams
        st = dict(matrices=0, adversarial=0, haar_draws=0, events=0, seeds_differ=0)
        if c["kind"] != "haar":
            st["k_" + c["kind"]] = 1
        self.hook.off()
        if c["kind"] == "haar":
            bad, small = self.haar(c, st)
            return Outcome(viol=bad, vclass="haar" if bad else None, stats=st, key=digest(c), digest=digest(bad, small), note="haar %s" % small)
        adv = c["stream"] == "adv"
        np.random.seed(c["rseed"])
        bad, log, last = None, [], None
        with (streams.Adversary(c["rseed"]) if adv else contextlib.nullcontext()):
            for i in range(c["N"]):
                bad, X = self.one(c)
                st["matrices"] += 1
                st["adversarial"] += adv
                log.append(repr(np.asarray(X).ravel()[:3].tolist()) if X is not None else None)
                # (one-mode real matrices and diagonal signs are discrete)
                if bad is None and X is not None and last is not None and not adv and c["n"] >= 3 and c.get("w", 1) > 0:
                    st["seeds_differ"] += 1
                    if np.array_equal(X, last):
                        bad = "two consecutive draws are the same matrix"
                if bad:
                    break
                last = X
        if bad:
            bad = "random_%s(%s): %s" % (c["kind"], self.argtext(c), bad)
        return Outcome(viol=bad, vclass="structure" if bad else None, stats=st, key=digest(c), digest=digest(log, bad), note=self.argtext(c))

    def argtext(self, c):
        return ", ".join("%s=%s" % (k, c[k]) for k in ("n", "a", "b", "hbar", "scale", "w", "defaults") if k in c)

    def one(self, c):
        """Draw one matrix; (what is wrong or None, matrix)."""
        import thewalrus.random as R
        n, k = c["n"], c["kind"]
        if k == "interferometer":
            U = R.random_interferometer(n) if c["defaults"] else R.random_interferometer(n, real=c["a"])
            return self.unitary(U, n, c["a"] and not c["defaults"]), U
        if k == "symplectic":
            if c["defaults"]:
                S = R.random_symplectic(n)
                p = b = False
            else:
                p, b = c["a"], c["b"]
                S = R.random_symplectic(n, passive=p, block_diag=b, scale=c["scale"])
            return self.symplectic(S, n, p, b), S
        if k == "covariance":
            if c["defaults"]:
                V, p, b, h = R.random_covariance(n), False, False, 2
            else:
                p, b, h = c["a"], c["b"], c["hbar"]
                V = R.random_covariance(n, hbar=h, pure=p, block_diag=b)
            return self.cov(V, n, h, p, b), V
        if k == "block":
            if c["defaults"]:
                U, top, real = R.random_block_interferometer(n), True, False
            else:
                top, real = c["a"], c["b"]
                U = R.random_block_interferometer(n, top_one=top, real=real)
            bad = self.unitary(U, n, real)
            if bad:
                return bad, U
            # blocks of the stated sizes, in order
            sizes = ([1] if top and n % 2 == 0 else []) + ([1] if top and n % 2 else [])
            if n % 2 == 0:
                sizes = [1] + [2] * (n // 2 - 1) + [1] if top else [2] * (n // 2)
            else:
                sizes = [1] + [2] * (n // 2) if top else [2] * (n // 2) + [1]
            M = np.zeros((n, n), bool)
            i = 0
            for s in sizes:
                M[i:i + s, i:i + s] = True
                i += s
            if np.any(U[~M] != 0):
                return "entries outside the blocks %s are not zero" % sizes, U
            if n > 1 and 2 in sizes and np.all(np.abs(U[M & ~np.eye(n, dtype=bool)]) == 0):
                return "blocks are trivial", U
            return None, U
        if k == "banded":
            w = c["w"]
            top, real = (True, False) if c["defaults"] else (c["a"], c["b"])
            try:
                U = R.random_banded_interferometer(n, w) if c["defaults"] else R.random_banded_interferometer(n, w, top_one_init=top, real=real)
            except ValueError:
                return (None if w > n - 1 else "refused"), None
            if w > n - 1:
                return "bandwidth %d of a %d-mode matrix was not refused" % (w, n), None
            bad = self.unitary(U, n, real)
            if bad:
                return bad, U
            far = np.abs(np.subtract.outer(np.arange(n), np.arange(n))) > w
            if np.any(np.abs(U[far]) > 1e-12):
                return "entries outside the band of width %d are not zero" % w, U
            return None, U
        raise core.HarnessError(k)

    def unitary(self, U, n, real):
        if not isinstance(U, np.ndarray) or U.shape != (n, n):
            return "shape %s" % (np.shape(U),)
        if not np.all(np.isfinite(U)):
            return "entries are not finite"
        if real and (np.iscomplexobj(U) and np.any(U.imag != 0)):
            return "real was asked, the result is complex"
        e = np.abs(U @ U.conj().T - np.eye(n)).max()
        if e > 1e-9:
            return "not unitary: deviation %.3g" % e
        if not real and n >= 1 and np.all(np.imag(U) == 0):
            return "complex interferometer has no imaginary part"
        return None

    def symplectic(self, S, n, passive, block):
        if not isinstance(S, np.ndarray) or S.shape != (2 * n, 2 * n):
            return "shape %s" % (np.shape(S),)
        if np.iscomplexobj(S) or not np.all(np.isfinite(S)):
            return "entries are not finite reals"
        J = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
        scale = max(1.0, np.abs(S).max() ** 2)
        e = np.abs(S @ J @ S.T - J).max()
        if e > 1e-9 * scale:
            return "not symplectic: deviation %.3g" % e
        if passive and np.abs(S @ S.T - np.eye(2 * n)).max() > 1e-9:
            return "passive was asked, the result is not orthogonal"
        if block and (np.any(S[:n, n:] != 0) or np.any(S[n:, :n] != 0)):
            return "block_diag was asked, the result mixes x and p"
        return None

    def cov(self, V, n, h, pure, block):
        if not isinstance(V, np.ndarray) or V.shape != (2 * n, 2 * n):
            return "shape %s" % (np.shape(V),)
        if np.iscomplexobj(V) or not np.all(np.isfinite(V)):
            return "entries are not finite reals"
        big = max(1.0, np.abs(V).max())
        if np.abs(V - V.T).max() > 1e-9 * big:
            return "not symmetric"
        J = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
        W = V / (h / 2)
        wbig = max(1.0, np.abs(W).max())
        e = np.linalg.eigvalsh(0.5 * (W + W.T) + 1j * J)[0]
        if e < -1e-10 * wbig * 10:
            return "not a quantum covariance matrix at hbar=%s: smallest eigenvalue %.3g" % (h, e)
        # symplectic spectrum through the invariants of W J
        if wbig < 1e4:
            nu2 = np.linalg.eigvals(-(W @ J @ W @ J)).real
            if pure and np.abs(nu2 - 1).max() > 1e-11 * wbig**2 * 100 + 1e-8:
                return "pure was asked, symplectic eigenvalues squared are %s" % nu2.tolist()
        if block and (np.any(V[:n, n:] != 0) or np.any(V[n:, :n] != 0)):
            return "block_diag was asked, the result mixes x and p"
        return None

    def haar(self, c, st):
        """Distribution of entries: |U_ij|^2 ~ Beta(1, n-1) (complex) or Beta(1/2, (n-1)/2) (real); phases uniform, signs fair."""
        import stats
        from scipy.stats import beta
        import thewalrus.random as R
        np.random.seed(c["rseed"])
        n, real, N = c["n"], c["a"], c["N"]
        via = c["via"]
        M = []
        for _ in range(N):
            if via == "passive":
                S = R.random_symplectic(n, passive=True, block_diag=real)
                M.append(S[:n, :n] + 1j * S[n:, :n])
            elif via == "block":
                M.append(R.random_block_interferometer(4, top_one=False, real=real)[:2, :2] if n == 2 else
                         R.random_block_interferometer(3, top_one=c["b"], real=real)[(slice(0, 1) if c["b"] else slice(2, 3),) * 2])
            elif via == "banded":
                M.append(R.random_banded_interferometer(n, n - 1, real=real))
            else:
                M.append(R.random_interferometer(n, real=real))
        M = np.array(M)
        n = M.shape[1]
        st["haar_draws"] += N
        T = stats.Tests()
        for i in range(n):
            for j in range(n):
                x = np.abs(M[:, i, j]) ** 2
                if n > 1:
                    d = beta(1, n - 1) if not real else beta(0.5, (n - 1) / 2)
                    for q in (0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98):
                        T.add("|U[%d,%d]|^2 below its %g quantile" % (i, j, q), np.sum(x < d.ppf(q)), N, q)
                if real:
                    T.add("U[%d,%d] positive" % (i, j), np.sum(M[:, i, j].real > 0), N, 0.5)
                else:
                    ph = np.angle(M[:, i, j]) / (2 * np.pi) + 0.5
                    for q in (0.125, 0.25, 0.5, 0.75):
                        T.add("phase of U[%d,%d] below %g turns" % (i, j, q), np.sum(ph < q), N, q)
        # the determinant: uniform phase or fair sign
        det = np.linalg.det(M)
        if real:
            T.add("positive determinant", np.sum(det.real > 0), N, 0.5)
        else:
            T.add("determinant in the upper half plane", np.sum(det.imag > 0), N, 0.5)
            T.add("determinant in the right half plane", np.sum(det.real > 0), N, 0.5)
        # relations between entries: signs / half planes of products
        if n > 1 or real:
            for (a, b, p, q) in ((0, 0, n - 1, n - 1), (0, n - 1, n - 1, 0), (0, 0, 0, n - 1), (0, 0, n - 1, 0)):
                if (a, b) == (p, q):
                    continue
                z = M[:, a, b] * np.conj(M[:, p, q])
                if n > 2 or not (real and (a, b, p, q) in ((0, 0, 1, 1), (0, 1, 1, 0))):
                    T.add("U[%d,%d] conj U[%d,%d] in the right half plane" % (a, b, p, q), np.sum(z.real > 0), N, 0.5)
        # invariance: a fixed rotation of the first row is again a column-entry-like variable
        if n > 1:
            w = np.exp(1j * np.arange(n)) if not real else np.cos(np.arange(n) + 0.3)
            w = w / np.linalg.norm(w)
            x = np.abs(M[:, 0, :] @ w) ** 2
            y = np.abs(np.einsum("i,kij,j->k", w, M, w)) ** 2
            d = beta(1, n - 1) if not real else beta(0.5, (n - 1) / 2)
            for q in (0.1, 0.25, 0.5, 0.75, 0.9):
                T.add("rotated first row below its %g quantile" % q, np.sum(x < d.ppf(q)), N, q)
                T.add("rotated entry below its %g quantile" % q, np.sum(y < d.ppf(q)), N, q)
        # consecutive draws are independent
        u = np.real(M[:, 0, 0]) > 0
        T.add("equal signs of U[0,0] in neighbouring draws", np.sum(u[0:N - 1:2] == u[1:N:2]), N // 2, 0.5)
        st["events"] += len(T.t)
        v = T.verdict()
        return ("random_interferometer via %s (n=%d, real=%s) is not Haar distributed: %s" % (via, n, real, v) if v else None), T.smallest()
