import numpy as np
import ref
from kernelprop import KernelProp


class Prop(KernelProp):
    ID = "C03"
    GROUPS = {"brs": 3, "ubrs": 2, "prob": 3}

    def warm(self, group, tier):
        import thewalrus._permanent as P
        self.P = P
        super().warm(group, tier)

    def workload(self, group, rng, tier):
        big = tier == "thorough"
        w = dict(seed=rng.getrandbits(30), real=rng.random() < 0.3)
        if group == "prob":
            mi = rng.choice([1, 2, 2, 3, 3, 4])
            lossless = rng.random() < 0.5
            mo = mi if lossless else rng.randint(1, mi)
            ph = rng.choice([1, 2, 2, 3, 3] + ([4] if big or mi < 4 else []))
            n = [0] * mi
            for _ in range(ph):
                n[rng.randrange(mi)] += 1
            d = [int(rng.random() < 0.65) for _ in range(mo)]
            if not any(d) and rng.random() < 0.7:
                d[rng.randrange(mo)] = 1
            if rng.random() < 0.06:     # vacuum input
                n = [0] * mi
            if rng.random() < 0.1:
                d = [0] * mo
            w.update(mi=mi, mo=mo, lossless=lossless, n=n, d=d, what=rng.choice(["click", "click", "click", "fock"]),
                     loss=rng.choice(["uniform", "modes", "slight", "slighter", "input", "sub"]), as_list=rng.randrange(2))
        else:
            m = rng.choice([1, 2, 3, 4, 5, 6] + ([7, 8] if big else []))
            n = rng.choice([1, 2, 3, 4, 5])
            if rng.random() < 0.04:
                m = 0
            if rng.random() < 0.04:
                n = 0
            w.update(m=m, n=n, lay=rng.choice(["C", "C", "T"]), herm=rng.random() < 0.5)
        return w

    def args(self, group, w):
        r = np.random.default_rng(w["seed"])
        g = lambda *s: r.normal(size=s) + (0 if w["real"] else 1j) * r.normal(size=s)
        if group == "prob":
            U = ref.rand_unitary(r, w["mi"], real=w["real"])
            T = U[: w["mo"], :]
            if not w["lossless"]:
                if w["loss"] == "uniform":
                    T = 0.7 * T
                elif w["loss"] == "modes":
                    T = np.diag(r.uniform(0.1, 1, size=w["mo"])) @ T
                elif w["loss"] == "slight":
                    T = T * np.sqrt(1 - 1e-3)
                elif w["loss"] == "slighter":   # almost, but not, lossless
                    T = np.diag(np.sqrt(1 - 10.0 ** r.uniform(-6, -2, size=w["mo"]))) @ T
                elif w["loss"] == "input":
                    T = T @ np.diag(np.sqrt(r.choice([1, 1, 0, 0.5, 0.99], size=w["mi"])))
            return np.ascontiguousarray(T), w
        A = g(w["m"], w["n"])
        E = g(w["n"], w["n"])
        if w["herm"]:
            E = E + E.conj().T
        A, E = A * 0.6, E * 0.4
        if w["lay"] == "T":
            A = np.asfortranarray(A)
            E = np.asfortranarray(E)
        return A, E

    def call(self, group, a):
        if group == "brs":
            return self.tw.brs(*a)
        if group == "ubrs":
            return self.tw.ubrs(a[0])
        T, w = a
        conv = list if w["as_list"] else np.array
        if w["what"] == "click":
            return self.P.fock_threshold_prob(conv(w["n"]), conv(w["d"]), T)
        tot = 0.0
        # lossless photon-number probability of every output compatible with the pattern
        for out in ref.compositions(sum(w["n"]), T.shape[0]):
            if all((o > 0) == bool(x) for o, x in zip(out, w["d"])) and T.shape[0] == T.shape[1]:
                tot += self.P.fock_prob(conv(w["n"]), conv(out), T)
        return tot

    def reference(self, group, w, a):
        if group == "prob":
            T = a[0]
            if w["what"] == "fock":
                if T.shape[0] != T.shape[1]:
                    return 0.0, 1e-9
                cols = [i for i, k in enumerate(w["n"]) for _ in range(k)]
                import math
                tot = 0.0
                for out in ref.compositions(sum(w["n"]), T.shape[0]):
                    if all((o > 0) == bool(x) for o, x in zip(out, w["d"])):
                        rows = [i for i, k in enumerate(out) for _ in range(k)]
                        tot += abs(ref.perm([[T[i, j] for j in cols] for i in rows])) ** 2 / math.prod(map(math.factorial, list(out) + w["n"]))
                return tot, 1e-9
            return ref.fock_threshold(w["n"], w["d"], T), 1e-9
        A, E = a
        if group == "ubrs":
            E = 0 * E
        return ref.brs(A, E), 1e-9 * float(np.real(ref_scale(A, E))) + 1e-12

    def shrink_w(self, group, w):
        if group != "prob":
            for k in ("m", "n"):
                if w[k] > 1:
                    yield dict(w, **{k: w[k] - 1})
        else:
            for i, k in enumerate(w["n"]):
                if k and sum(w["n"]) > 1:
                    n = list(w["n"])
                    n[i] -= 1
                    yield dict(w, n=n)


def ref_scale(A, E):
    B = np.abs(A)
    return 2 ** len(A) * abs(ref.perm(B.T @ B + np.abs(E)))
