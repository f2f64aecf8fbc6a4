"""Concurrent callers get the results they would get alone."""
import gc, random
import hist
from hist import HistProp, shrink_list, snap, snapdiff
from core import Outcome, digest


class Prop(HistProp):
    ID = "C16"
    RULE = ("one run = 2-4 caller threads, each making 1-3 calls on shared or separate argument objects, preempted by the seeded "
            "scheduler at source lines and lock operations of the package (kernels included in group py); every result compared "
            "with the same call in a fresh process; non-trivial = at least one switch between two callers inside the package; "
            "distinct = distinct hashes of the calls and of the full sequence of switches with their source positions")
    REAL = HistProp.REAL + "; the interpreter's real thread objects"
    SIMULATED = "which thread runs (every switch), locks, clock (pysim); numba's threading layer (one simulated worker)"
    ASSUMPTIONS = ["callers are preempted at source lines and lock operations of the package, not inside numpy or compiled kernels",
                   "functions that draw from the shared global random stream are only required not to fail"]
    PROBES = ["switches", "shared", "overlapped"]

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        det = self.bykind["det"] + self.bykind.get("seeded", [])
        focus = [self.pick(rng, det) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.5:
            n = focus[0][0]
            focus += [[n, v] for v in range(len(self.cat.E[n].variants))][:4]
        if rng.random() < 0.3:
            m = self.cat.E[focus[0][0]].path.rsplit(".", 1)[0]
            focus += [self.pick(rng, [n for n in det if self.cat.E[n].path.rsplit(".", 1)[0] == m])]
        seeds = [self.some_seed(rng) for _ in range(rng.randint(1, 3))]
        bg = self.bykind.get("rng", [])
        threads = []
        for t in range(rng.choice([2, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                if bg and rng.random() < 0.08:
                    ops.append(["rng", self.pick(rng, bg) + [self.some_seed(rng)]])
                else:
                    ops.append(["shared" if rng.random() < 0.4 else "own", self.vary(rng, rng.choice(focus) + [rng.choice(seeds)], 0.3, seeds)])
            threads.append(ops)
        return dict(threads=threads, sched=dict(seed=rng.getrandbits(50), p=rng.choice([0.003, 0.01, 0.03, 0.1, 0.3, 0.6]), burst=rng.choice([0, 0, 0.5])),
                    pre=rng.random() < 0.2)

    def run(self, group, case):
        for ops in case["threads"]:
            for o in ops:
                self.alone(o[1])
        return super().run(group, case)

    def run_in_child(self, group, case):
        import threading
        st = dict(switches=0, yields=0, calls=0, shared=0, overlapped=0, lock_waits=0)
        th = case["threads"]
        pool = {}
        if case["pre"]:
            # warm process: the calls were made before
            for ops in th:
                for o in ops[:1]:
                    self.raw(o[1])
        for ops in th:
            for o in ops:
                if o[0] == "shared":
                    k = tuple(o[1])
                    if k in pool:
                        st["shared"] += 1
                    else:
                        pool[k] = self.args(o[1])
        mine = [[pool[tuple(o[1])] if o[0] == "shared" else self.args(o[1]) for o in ops] for ops in th]
        out = [[None] * len(ops) for ops in th]
        if self.bykind.get("rng"):
            self.seed_rng(7)
        hk = self.hook
        sim = self.pysim.Sim(case["sched"], max_steps=20_000_000)
        active = set()

        def body(i):
            for j, o in enumerate(th[i]):
                active.add(i)
                if len(active) > 1:
                    st["overlapped"] += 1
                try:
                    out[i][j] = self.raw(o[1], mine[i][j])
                finally:
                    active.discard(i)

        def main():
            ts = [threading.Thread(target=body, args=(i,)) for i in range(len(th))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        bad = None
        hk.arm(sim)
        try:
            sim.run(main)
        except (self.pysim.Deadlock, self.pysim.Stuck) as e:
            bad = str(e)
        hk.disarm()
        if bad is None and sim.stuck:
            bad = "no result within the step bound"
        log = []
        if bad is None:
            for i, ops in enumerate(th):
                for j, o in enumerate(ops):
                    r = out[i][j]
                    st["calls"] += 1
                    w = self.alone(o[1])[0]
                    if r is None:
                        bad = "thread %d died during %s" % (i, self.name(o[1]))
                        break
                    g = self.norm_result(r)
                    log.append((i, j, repr(g[1])[:300]))
                    if o[0] == "rng":
                        if g[0] == "exc" and w[0] == "ok":
                            bad = "%s failed among concurrent callers: %s; alone it succeeds" % (self.name(o[1]), self.text(g))
                    elif not self.agree(g, w):
                        bad = "%s in thread %d of %d gives %s; alone it gives %s" % (self.name(o[1]), i, len(th), self.text(g), self.text(w))
                    if bad:
                        break
                if bad:
                    break
        x = sim.stats
        st["switches"], st["yields"], st["lock_waits"] = x["switches"], x["yields"], x["lock_waits"]
        c = None
        if bad and "switches" not in case["sched"]:
            c = dict(case, sched=dict(switches=[list(s) for s in sim.switches]))
        key = digest(th, sim.digest())
        return Outcome(viol=bad, vclass="concurrent" if bad else None, stats=st, key=key, trivial=st["overlapped"] == 0,
                       digest=digest(key, log, bad), case=c, note="%d switches" % x["switches"])

    def shrink(self, group, case):
        th = case["threads"]
        if len(th) > 1:
            for i in range(len(th)):
                yield dict(case, threads=th[:i] + th[i + 1:])
        for i, ops in enumerate(th):
            if len(ops) > 1:
                for j in range(len(ops)):
                    yield dict(case, threads=th[:i] + [ops[:j] + ops[j + 1:]] + th[i + 1:])
        s = case["sched"]
        if s.get("switches"):
            d = s["switches"]
            seen = set()
            for step in (len(d), len(d) // 2, len(d) // 4, len(d) // 8, len(d) // 16, 1):
                if step >= 1 and step not in seen and len(d) // step < 200:
                    seen.add(step)
                    for a in range(0, len(d), step):
                        yield dict(case, sched=dict(switches=d[:a] + d[a + step:]))
