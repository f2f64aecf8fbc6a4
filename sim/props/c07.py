"""Photon-number sampling has the exact distribution."""
import random
from forked import np
import core
from statprop import StatProp, state_of, resets
from core import Outcome, digest


class Prop(StatProp):
    ID = "C07"
    WHICH = "haf"
    RULE = ("one run = one state (or graph), value of hbar, set of limits, random stream and division of a batch of 200-5000 samples "
            "into calls; counts of every outcome, total, marginal, parity and pair of rows tested against exact probabilities; "
            "adversarial streams: rows valid and possible; non-trivial = more than one possible outcome; distinct = distinct cases")
    PROBES = ["rows", "adversarial_rows", "displaced_runs", "hbar_runs", "limit_runs", "graph_runs", "events"]

    def jobs(self):
        """One warm-up per kernel specialisation (array layout, parity), then the samplers themselves."""
        def kernel(layout, odd):
            def f():
                import numpy as np
                from thewalrus.loop_hafnian_batch import loop_hafnian_batch
                from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
                B = np.zeros((3, 3), complex)[:2, :2]
                if layout == "C":
                    B = B.copy()
                if self.WHICH == "haf":
                    loop_hafnian_batch(B, np.ones(2, complex), np.array([odd]), 3)
                else:
                    g = np.ones((2, 3), complex)[:, :2]
                    loop_hafnian_batch_gamma(B, g.copy() if layout == "C" else g, np.array([odd]), 3)
            return f

        def sampler():
            import numpy as np
            import thewalrus.samples as S
            for n in (1, 2, 3):
                if self.WHICH == "haf":
                    S.hafnian_sample_state(np.eye(2 * n) * 1.2, 6, mean=np.ones(2 * n), cutoff=4)
                else:
                    S.torontonian_sample_state(np.eye(2 * n) * 1.2, 6, np.ones(2 * n), fanout=2, cutoff=2)
        k = [kernel("A", 0), kernel("A", 1), kernel("C", 0)] + ([kernel("C", 1)] if self.WHICH == "tor" else [])
        return [k, [sampler]]

    def case(self, group, seed, tier):
        import samplers
        rng = random.Random(seed)
        for _ in range(200):
            c = samplers.gen(rng, self.WHICH, big=group == "jit")
            if group == "py" and c["n"] > 1 and self.WHICH == "haf" and (c["cutoff"] or 5) > 10:
                continue
            P, tv, acc = samplers.exact(c)
            if tv <= (0.004 if c.get("amp") else 0.03) and acc >= 0.15 and len(P) >= 1:
                break
        else:
            raise core.HarnessError("no case")
        if group == "jit":
            if c.get("fanout") == 1:
                c["fanout"] = 2         # (one more specialisation of the kernel)
            c["N"] = rng.choice([1000, 4000, 4000, 10000] if tier == "quick" else [1000, 4000, 10000, 30000])
        else:
            c["N"] = rng.choice([200, 600])
        c["chunk"] = rng.choice([c["N"], c["N"], 100, 17, 1])
        if c["chunk"] == 1:
            c["N"] = min(c["N"], 1000)
        c["stream"] = "adv" if rng.random() < 0.35 and c["n"] < 4 and not c.get("amp") else "mt"
        if c["stream"] == "adv":
            c["N"], c["chunk"] = min(c["N"], 200), min(c["chunk"], 50)
            # an adversary choosing rare outcomes would otherwise be rejected for ever
            if c["limit"] is not None:
                c["limit"] = max(c["limit"], c["n"] if self.WHICH == "tor" else 4)
        cost = (1 + 0.05 * (c.get("fanout") or 10) * c["n"] if self.WHICH == "tor" else 1.5 + 0.3 * (c["n"] - 2)) / acc * (1 if group == "jit" else 4)    # ms a sample
        c["N"] = int(min(c["N"], (9000 if tier == "quick" else 30000) / cost))
        c["pre"] = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            d = samplers.gen(rng, rng.choice(["haf", "tor"]) if group == "py" else self.WHICH, big=False)
            d["n"] = c["n"] if rng.random() < 0.6 else d["n"]
            if d["fn"] == "graph" and d["kind"] == "graph01" and d["n"] == 1:
                d["kind"] = "graphr"
            d["limit"] = None
            d["fanout"] = 3
            d["cutoff"] = 4
            d["k"] = rng.choice([None, int(10 ** rng.uniform(0, 2.5))])
            c["pre"].append(d)
        return c

    def run_in_child(self, group, c):
        import samplers, stats, hist, contextlib, streams
        st = dict(rows=0, adversarial_rows=0, displaced_runs=0, hbar_runs=0, limit_runs=0, graph_runs=0, events=0, faults_fired=0, calls=0)
        P, tv, acc = samplers.exact(c)
        np.random.seed(c["rseed"] & 0x7FFFFFFF)
        for d in c["pre"]:
            if d["which"] == "tor":
                d = dict(d, fanout=3)
            if d["k"]:
                self.hook.arm(None, fault_at=(d["k"], lambda: MemoryError("injected")))
            try:
                samplers.call(d, 2)
            except MemoryError:
                st["faults_fired"] += 1
            finally:
                self.hook.disarm()
        self.hook.off()
        np.random.seed(c["rseed"])
        out = []
        bad = None
        left = c["N"]
        adv = c["stream"] == "adv"
        with (streams.Adversary(c["rseed"]) if adv else contextlib.nullcontext()):
            while left and bad is None:
                k = min(left, c["chunk"])
                o = samplers.call(c, k)
                st["calls"] += 1
                bad = samplers.valid(c, o, k, None if adv else P)
                if bad is None:
                    out += [tuple(int(x) for x in r) for r in o]
                left -= k
        vc = "invalid-row" if bad else None
        st["adversarial_rows" if adv else "rows"] += len(out)
        st["displaced_runs"] += c["mean"] == "given" and c["kind"] in ("rand", "pure", "coh", "vac")
        st["hbar_runs"] += c["hbar"] not in (2, 2.0)
        st["limit_runs"] += c["limit"] is not None and c["limit"] < 30
        st["graph_runs"] += c["fn"] == "graph"
        small = None
        if bad is None and not adv:
            T = stats.Tests()
            stats.discrete(T, out, P, tv)
            st["events"] += len(T.t)
            bad = T.verdict()
            small = T.smallest()
            vc = "distribution" if bad else None
            if bad is None and resets(lambda: samplers.call(c, 2), c["rseed"]):
                bad, vc = "the call sets the random stream to a fixed state: later samples are not independent", "reset"
        if bad:
            bad = "%s %s of a %d-mode %s state (hbar=%s, limit=%s, cutoff=%s): %s" % (
                dict(haf="hafnian_sample", tor="torontonian_sample")[c["which"]], c["fn"], c["n"], c["kind"], c["hbar"], c["limit"], c["cutoff"], bad)
        return Outcome(viol=bad, vclass=vc, stats=st, key=digest(c), trivial=len(P) < 2 or max(P.values()) > 0.9999,
                       digest=digest(out, small), note="smallest p-value %s, slack %.2g" % (small, tv))

    def shrink(self, group, case):
        import samplers
        yield from super().shrink(group, case)
        yield from samplers.shrink(case)
