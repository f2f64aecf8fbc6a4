import numpy as np
import ref
from kernelprop import KernelProp, mat, vec, FLAVOURS


class Prop(KernelProp):
    ID = "C01"
    GROUPS = {"haf": 3, "lhaf_even": 2, "lhaf_odd": 3}

    def workload(self, group, rng, tier):
        big = tier == "thorough"
        api = {"haf": ["hafnian", "hafnian", "hafnian_repeated", "hafnian_repeated", "hafnian_repeated"],
               "lhaf_even": ["hafnian", "loop_hafnian", "loop_hafnian", "hafnian_repeated", "hafnian_repeated"],
               "lhaf_odd": ["hafnian", "loop_hafnian", "loop_hafnian", "hafnian_repeated", "hafnian_repeated"]}[group]
        w = dict(api=rng.choice(api), glynn=bool(rng.randrange(2)))
        fl = rng.choice(FLAVOURS)
        loop = group != "haf"
        if w["api"] == "hafnian" or (w["api"] == "loop_hafnian" and rng.random() < 0.3):
            n = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 10] + ([11, 12] if big or rng.random() < 0.15 else []))
            if group == "haf":
                n += n % 2
            elif group == "lhaf_even":
                n += n % 2
            else:
                n += 1 - n % 2
            w["reps"] = None
        else:
            n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
            tot = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13] + ([14, 16, 17] if big else []))
            if group == "lhaf_odd":
                tot += 1 - tot % 2
            elif rng.random() < 0.93 or group == "lhaf_even":
                tot += tot % 2
            style = rng.randrange(4)
            reps = [0] * n
            if style == 0:
                reps = [1] * n
                if sum(reps) % 2 != (group == "lhaf_odd"):
                    reps[rng.randrange(n)] += 1
            elif style == 1:  # concentrated
                h = rng.randrange(n)
                for _ in range(tot):
                    reps[h if rng.random() < 0.7 else rng.randrange(n)] += 1
            else:
                for _ in range(tot):
                    reps[rng.randrange(n)] += 1
            w["reps"] = reps
            w["rtype"] = rng.choice(["list", "tuple", "array"]) if w["api"] == "hafnian_repeated" else "list"
        w["mat"] = dict(n=n, fl=fl, seed=rng.getrandbits(30), lay=rng.choice(["C", "C", "C", "S", "R"]))
        w["mu"] = None
        if loop and w["api"] != "hafnian" and (rng.random() < 0.75):
            w["mu"] = dict(n=n, fl=rng.choice(["complex", "complex", "real", "sparse", "zero", "int"]), seed=rng.getrandbits(30))
        if w["api"] == "loop_hafnian" and w["reps"] is not None and rng.random() < 0.1:
            w["reps"] = [0] * n if group == "lhaf_even" else [1 if i == n // 2 else 0 for i in range(n)]
        w["method"] = "glynn" if w["glynn"] else "inclexcl"
        return w

    def args(self, group, w):
        A = mat(w["mat"])
        mu = vec(w["mu"]) if w["mu"] else None
        reps = w["reps"]
        if reps is not None and w.get("rtype") == "tuple":
            reps = tuple(reps)
        elif reps is not None and w.get("rtype") == "array":
            reps = np.array(reps)
        return (w["api"], A, mu, reps, w["glynn"], w["method"])

    def call(self, group, a):
        api, A, mu, reps, glynn, method = a
        loop = group != "haf"
        if api == "hafnian":
            return self.tw.hafnian(A, loop=loop, method=method)
        if api == "loop_hafnian":
            return self.tw.loop_hafnian(A, mu, reps, glynn)
        return self.tw.hafnian_repeated(A, reps, mu=mu, loop=loop, glynn=glynn)

    def reference(self, group, w, a):
        _, A, mu, reps, _, _ = a
        r = [1] * len(A) if reps is None else [int(x) for x in reps]
        A = A.tolist()
        B = [[abs(x) for x in row] for row in A]
        m = max(max(row) for row in B)
        M = [[m] * len(A)] * len(A)
        if group == "haf":
            return ref.haf(A, r), 1e-9 * abs(ref.haf(B, r)) + 1e-10 * abs(ref.haf(M, r)) + 1e-13
        D = [A[i][i] for i in range(len(A))] if mu is None else mu.tolist()
        dm = [max(abs(x) for x in D)] * len(A)
        return (ref.lhaf(A, D, r), 1e-9 * abs(ref.lhaf(B, [abs(x) for x in D], r)) + 1e-10 * abs(ref.lhaf(M, dm, r)) + 1e-13)

    def shrink_w(self, group, w):
        m = w["mat"]
        if w["reps"] is not None:
            for i, k in enumerate(w["reps"]):
                for dec in (2, k):
                    if k >= dec > 0 and dec % 2 == 0:
                        r = list(w["reps"])
                        r[i] -= dec
                        if sum(r) > 0:
                            yield dict(w, reps=r)
        elif m["n"] > 5:
            yield dict(w, mat=dict(m, n=m["n"] - 2), mu=w["mu"] and dict(w["mu"], n=m["n"] - 2))
        for fl in ("ones", "real"):
            if m["fl"] != fl and m["fl"] != "ones":
                yield dict(w, mat=dict(m, fl=fl))
        if m["lay"] != "C":
            yield dict(w, mat=dict(m, lay="C"))
