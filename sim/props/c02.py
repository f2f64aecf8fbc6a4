import random
import numpy as np
import ref
from kernelprop import KernelProp, mat, vec, FLAVOURS
import nbsim


class Prop(KernelProp):
    ID = "C02"
    GROUPS = {"even": 2, "odd": 2, "gamma_even": 2, "gamma_odd": 2}

    def workload(self, group, rng, tier):
        big = tier == "thorough"
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
        odd = group.endswith("odd")
        if odd and n == 1:
            n = 2
        tot = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6] + ([7, 8] if big else []))
        tot += (tot % 2) != odd
        if n == 1:
            tot = 0
        reps = [0] * (n - 1)
        style = rng.randrange(3)
        h = rng.randrange(n - 1) if n > 1 else 0
        for _ in range(tot):
            reps[h if style == 0 and rng.random() < 0.7 else rng.randrange(n - 1)] += 1
        fl = rng.choice(FLAVOURS)
        w = dict(mat=dict(n=n, fl=fl, seed=rng.getrandbits(30), lay=rng.choice(["C", "C", "C", "S", "R"])),
                 reps=reps, rtype=rng.choice(["list", "tuple", "array"]), cutoff=rng.choice([0, 1, 1, 2, 3, 4, 5, 6]),
                 glynn=rng.random() < 0.7, gdef=rng.random() < 0.3,
                 nd=rng.choice([1, 1, 2, 3, 4]) if "gamma" in group else 0,
                 mu=dict(n=n, fl=rng.choice(["complex", "complex", "complex", "real", "sparse", "zero", "int"]), seed=rng.getrandbits(30)))
        return w

    def args(self, group, w):
        A = mat(w["mat"])
        m = w["mu"]
        if w["nd"]:
            D = np.array([vec(dict(m, seed=m["seed"] + k)) for k in range(w["nd"])])
        else:
            D = vec(m)
        reps = list(w["reps"])
        if w["rtype"] == "tuple":
            reps = tuple(reps)
        elif w["rtype"] == "array":
            reps = np.array(reps, dtype=int)
        return A, D, reps, w["cutoff"], w["glynn"], w["gdef"] and w["glynn"]

    def call(self, group, a):
        A, D, reps, c, glynn, gdef = a
        f = self.tw.loop_hafnian_batch_gamma if "gamma" in group else self.tw.loop_hafnian_batch
        if not callable(f):
            f = getattr(f, f.__name__.split(".")[-1])
        return f(A, D, reps, c) if gdef else f(A, D, reps, c, glynn=glynn)

    def reference(self, group, w, a):
        A, D, reps, c, _, _ = a
        n = len(A)
        A = A.tolist()
        B = [[abs(x) for x in row] for row in A]
        m = max(max(row) for row in B)
        M = [[m] * n] * n
        out, tol = [], []
        for d in (D if w["nd"] else [D]):
            d = d.tolist()
            da = [abs(x) for x in d]
            row, t = [], []
            for k in range(c + 1):
                r = [int(x) for x in reps] + [k]
                row.append(ref.lhaf(A, d, r))
                t.append(1e-9 * abs(ref.lhaf(B, da, r)) + 1e-10 * abs(ref.lhaf(M, [max(da)] * n, r)) + 1e-13)
            # the batch shares one power-trace sum up to the cutoff: error scale of the largest entry
            t = [x + 1e-12 * max(t) / 1e-10 * 1e-2 for x in t]
            out.append(row)
            tol.append(t)
        if not w["nd"]:
            return np.array(out[0]), np.array(tol[0])
        return np.array(out), np.array(tol)

    def shrink_w(self, group, w):
        if w["cutoff"] > 1:
            yield dict(w, cutoff=w["cutoff"] - 1)
        if w["nd"] > 1:
            yield dict(w, nd=w["nd"] - 1)
        for i, k in enumerate(w["reps"]):
            if k >= 2:
                r = list(w["reps"])
                r[i] -= 2
                yield dict(w, reps=r)
        if w["mat"]["fl"] not in ("ones", "real"):
            yield dict(w, mat=dict(w["mat"], fl="real"))
        if w["mat"]["lay"] != "C":
            yield dict(w, mat=dict(w["mat"], lay="C"))
