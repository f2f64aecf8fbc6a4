import itertools
import numpy as np
import ref
from kernelprop import KernelProp


class Prop(KernelProp):
    ID = "C04"
    GROUPS = {"ltor": 3, "prob": 5}

    def workload(self, group, rng, tier):
        big = tier == "thorough"
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6] + ([7] if big else []))
        w = dict(seed=rng.getrandbits(30), n=n, hbar=rng.choice([2, 2.0, 1.0, 1.7, 0.5]), pure=rng.random() < 0.5)
        if group == "ltor":
            w.update(src=rng.choice(["state", "state", "small", "realsmall"]), lay=rng.choice(["C", "C", "F"]))
        else:
            w["displaced"] = rng.random() < 0.85
            w["dtype"] = rng.choice(["array", "list", "tuple", "int8"])
            w["scale"] = rng.choice([1, 1, 1, 0.1, 1e-3, 1e-7])
            if rng.random() < 0.3 and n <= 4:
                w["d"] = "all"
            else:
                w["d"] = [int(rng.random() < 0.6) for _ in range(n)]
        return w

    def args(self, group, w):
        r = np.random.default_rng(w["seed"])
        n = w["n"]
        if group == "ltor":
            if w["src"] == "state":
                mu, V = ref.rand_state(r, n, w["hbar"], pure=w["pure"], displaced=True)
                A, g, _ = ref.husimi_A(mu, V, w["hbar"])
                X = np.roll(np.eye(2 * n), n, axis=0)
                O, g = X @ A, g.astype(complex)
            else:
                O = r.normal(size=(2 * n, 2 * n)) + (1j * r.normal(size=(2 * n, 2 * n)) if w["src"] == "small" else 0)
                O = 0.15 / n * (O + O.conj().T)
                g = r.normal(size=2 * n) + (1j * r.normal(size=2 * n) if w["src"] == "small" else 0)
            if w["lay"] == "F":
                O = np.asfortranarray(O)
            return O, g
        mu, V = ref.rand_state(r, n, w["hbar"], pure=w["pure"], displaced=w["displaced"])
        return mu * w["scale"], V, w

    def pats(self, w):
        ps = list(itertools.product((0, 1), repeat=w["n"])) if w["d"] == "all" else [w["d"]]
        conv = {"array": np.array, "list": list, "tuple": tuple, "int8": lambda d: np.array(d, dtype=np.int8)}[w["dtype"]]
        return [conv(p) for p in ps]

    def call(self, group, a):
        if group == "ltor":
            return self.tw.ltor(a[0], a[1], recursive=False)
        mu, V, w = a
        return [self.tw.threshold_detection_prob(mu, V, d, hbar=w["hbar"]) for d in self.pats(w)]

    def reference(self, group, w, a):
        if group == "ltor":
            v = ref.ltor(*a)
            return v, 1e-9 * (abs(v) + self.scale(*a))
        mu, V, _ = a
        return np.array([ref.click_prob(mu, V, d, w["hbar"]) for d in self.pats(w)]), 1e-9

    def scale(self, O, g):
        N = O.shape[0] // 2
        M = np.eye(2 * N) - O
        return 2**N * abs(np.exp(0.5 * g @ np.linalg.solve(M, g.conj()))) / np.sqrt(abs(np.linalg.det(M)))

    def compare(self, group, w, got, ref_, tol):
        bad = super().compare(group, w, got, ref_, tol)
        if bad or group == "ltor":
            return bad
        got = np.asarray(got)
        got = got.real
        if np.any(got < -1e-9) or np.any(got > 1 + 1e-9):
            return "not a probability: %r" % got
        if w["d"] == "all" and abs(got.sum() - 1) > 1e-8:
            return "probabilities of all patterns sum to %r" % got.sum()
        return None

    def shrink_w(self, group, w):
        if group == "prob" and w["d"] == "all":
            for d in itertools.product((0, 1), repeat=w["n"]):
                yield dict(w, d=list(d))
        elif group == "prob" and w["n"] > 1:
            yield dict(w, n=w["n"] - 1, d=w["d"][:-1])
        elif w["n"] > 1:
            yield dict(w, n=w["n"] - 1)
