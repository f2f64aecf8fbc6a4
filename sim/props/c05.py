"""Parallel samplers under simulated threads: complete valid independent samples or the failure."""
import random, uuid, os
from forked import np
import core
from props import c07
from statprop import StatProp
from core import Outcome, digest

EXC = ("MemoryError", "RuntimeError", "LinAlgError", "FloatingPointError", "ValueError", "KeyboardInterrupt")


class Prop(c07.Prop):
    ID = "C05"
    WHICH = "haf"
    GROUPS = {"py": 5, "jit": 3}
    BUDGET = {"quick": 55, "thorough": 500}
    RULE = ("one run = 1-3 callers (simulated threads) making 1-3 parallel sampling calls on dask's real threaded scheduler and real "
            "executors with 1-8 simulated workers, seeded preemption at source lines and lock operations, exceptions striking at the "
            "k-th event inside the package, failing thread starts; every call returns exactly the requested valid rows or raises the "
            "injected failure; batches of 150-800 rows tested against the exact distribution and for independence; non-trivial = at "
            "least two threads ran or a fault fired; distinct = distinct (calls, schedule, fault) hashes")
    PROBES = ["calls", "rows", "switches", "faults_fired", "failures_surfaced", "later_calls", "stat_rows", "start_failures", "concurrent_callers", "default_pool"]
    REAL = ("the samplers and kernels of the current tree, dask.delayed, dask.compute, dask's threaded scheduler, "
            "concurrent.futures thread pools, queues and conditions")
    SIMULATED = "threads, locks, clock, thread starts, task names (which fix dask's submission order), the random stream"
    ASSUMPTIONS = ["preemption at line boundaries of the package's Python code (of its kernels too in group py) and at lock operations, not inside numpy"]

    def jobs(self):
        return super().jobs()

    def case(self, group, seed, tier):
        import samplers
        rng = random.Random(seed)
        kind = rng.choice(["run", "run", "run", "fault", "fault", "stat"] if group == "py" else ["run", "fault", "stat", "stat"])
        which = (lambda: rng.choice(["haf", "tor"])) if group == "py" else (lambda: "haf")

        def one(stat=False):
            for _ in range(300):
                c = samplers.gen(rng, which(), big=False)
                if group == "py":
                    if c["which"] == "tor":
                        c["fanout"], c["cutoff"] = rng.choice([(None, None), (2, 6), (3, 5), (4, 4)]) if not stat else rng.choice([(2, 6), (3, 5)])
                    else:
                        c["cutoff"] = rng.choice([None, 5, 7])
                P, tv, acc = samplers.exact(c)
                if acc >= 0.15 and (not stat or (tv < 0.03 and c["n"] == 1 or (group == "jit" and tv < 0.03))) and (not stat or max(P.values()) < 0.95):
                    break
            else:
                raise core.HarnessError("no case")
            c["k"] = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17, 24])
            if not stat and c["n"] == 1 and acc > 0.4 and rng.random() < 0.12:      # batches that no chunk size divides
                c["k"] = rng.choice([33, 51, 101, 127, 131, 211, 257] + ([307, 523, 1009, 1031] if group == "jit" else []))
            return c

        w = rng.choice([1, 2, 3, 4, 5, 8])
        c = dict(kind=kind, workers=w, pool=rng.choice(["default", "num_workers"]), rseed=rng.getrandbits(31), names=rng.getrandbits(40),
                 sched=dict(seed=rng.getrandbits(48), p=rng.choice([0.0, 0.001, 0.01, 0.05, 0.3]), burst=rng.choice([0, 0, 0.5])), fault=None, start=None)
        if kind == "stat":
            x = one(True)
            x["k"] = rng.choice([150, 211, 299]) if group == "py" else rng.choice([300, 503, 799])
            c["callers"] = [[x, dict(x)]]
            c["sched"]["p"] = rng.choice([0.0, 0.001, 0.01])
        else:
            nc = rng.choice([1, 1, 1, 2, 3])
            c["callers"] = [[one() for _ in range(rng.choice([1, 1, 2, 3] if nc == 1 else [1, 2]))] for _ in range(nc)]
            if nc == 1 and len(c["callers"][0]) > 1 and rng.random() < 0.5:
                c["callers"][0][1] = dict(c["callers"][0][0], k=c["callers"][0][1]["k"])
        if kind == "fault":
            if rng.random() < 0.2:
                c["start"] = rng.randint(1, 4)
            else:
                c["fault"] = [max(1, int(10 ** rng.uniform(0, 4.2))), rng.choice(EXC)]
            x = one()
            x["k"] = rng.choice([1, 3, 6])
            c["later"] = x
        return c

    def run_in_child(self, group, c):
        import samplers, stats, hist, threading, dask, dask.threaded
        st = dict(calls=0, rows=0, switches=0, faults_fired=0, failures_surfaced=0, later_calls=0, stat_rows=0, start_failures=0, concurrent_callers=0,
                  default_pool=0, threads=0, yields=0, lock_waits=0, events=0, max_workers=c["workers"])
        E = dict(MemoryError=MemoryError, RuntimeError=RuntimeError, LinAlgError=np.linalg.LinAlgError, FloatingPointError=FloatingPointError,
                 ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt)
        np.random.seed(c["rseed"])
        nr = random.Random(c["names"])
        uuid.uuid4 = lambda: uuid.UUID(int=nr.getrandbits(128), version=4)
        os.cpu_count = lambda: c["workers"]
        dask.threaded.CPU_COUNT = c["workers"]
        kw = dict(num_workers=c["workers"]) if c["pool"] == "num_workers" else {}
        st["default_pool"] += c["pool"] == "default"
        sim = self.pysim.Sim(c["sched"], max_steps=6_000_000)
        spawned = [0]
        spawn0 = sim.spawn
        fired_start = []
        fail_at = c["start"]

        own = []

        def spawn(*a, **k):
            if getattr(a[0], "__self__", None) in own:      # one of the harness's callers, not a worker
                return spawn0(*a, **k)
            spawned[0] += 1
            if fail_at is not None and spawned[0] == fail_at and not fired_start:
                fired_start.append(spawned[0])
                raise RuntimeError("can't start new thread")
            return spawn0(*a, **k)
        sim.spawn = spawn
        bad = []
        results = []
        inside = [0]

        def call(x, where, faulty):
            import samplers
            args = []
            orig_state, orig_adj = samplers.state_of, samplers.adjacency

            def keep(f):
                def g(cc):
                    v = f(cc)
                    args.append((v, hist.snap([v] if not isinstance(v, tuple) else list(v))))
                    return v
                return g
            import types
            ns = dict(samplers.__dict__, state_of=keep(orig_state), adjacency=keep(orig_adj))
            fn = types.FunctionType(samplers.call.__code__, ns)
            st["calls"] += 1
            try:
                o = fn(x, x["k"], dict(parallel=True))
                r = ("ok", o)
            except self.pysim.SimKill:
                raise
            except (self.pysim.Deadlock, self.pysim.Stuck):
                raise
            except BaseException as e:
                r = ("exc", type(e), str(e))
            for v, s0 in args:
                if hist.snap([v] if not isinstance(v, tuple) else list(v)) != s0:
                    bad.append(("arguments", "%s: the caller's arguments were modified" % where))
            if r[0] == "ok":
                b = samplers.valid(x, o, x["k"], None)
                if b:
                    bad.append(("rows", "%s: %s" % (where, b)))
                else:
                    st["rows"] += len(o)
                    results.append((x, [tuple(int(i) for i in row) for row in o]))
            return r

        def caller(i):
            for j, x in enumerate(c["callers"][i]):
                before = self.hook.fired is not None or bool(fired_start)
                where = "caller %d call %d (%s_%s, %d samples, %d workers)" % (i, j, x["which"], x["fn"], x["k"], c["workers"])
                r = call(x, where, True)
                if r[0] == "exc":
                    ok = False
                    if self.hook.fired is not None and r[1] is E[c["fault"][1]] and "injected" in r[2]:
                        ok = True
                    if fired_start and r[1] is RuntimeError and "start new thread" in r[2]:
                        ok = True
                    if ok:
                        surfaced.append((i, j))
                        st["failures_surfaced"] += 1
                    else:
                        bad.append(("raises", "%s raises %s: %s" % (where, r[1].__name__, r[2][:200])))

        surfaced = []

        def main():
            with dask.config.set(**kw):
                n = len(c["callers"])
                if n == 1:
                    caller(0)
                    if c["kind"] == "stat" and not bad:
                        import statprop
                        if statprop.resets(lambda: call(dict(c["callers"][0][0], k=2), "another call", False), c["rseed"]):
                            bad.append(("reset", "parallel %s_%s sets the random stream to a fixed state: later samples are not independent" % (
                                c["callers"][0][0]["which"], c["callers"][0][0]["fn"])))
                    return
                st["concurrent_callers"] += n
                ts = [threading.Thread(target=caller, args=(i,)) for i in range(n)]
                own.extend(ts)
                for t in ts[1:]:
                    t.start()
                caller(0)
                for t in ts[1:]:
                    t.join()

        f = c["fault"]
        self.hook.arm(sim, fault_at=(f[0], lambda: E[f[1]]("injected")) if f else None)
        err = None
        try:
            sim.run(main)
        except (self.pysim.Deadlock, self.pysim.Stuck) as e:
            err = str(e)
        except BaseException as e:
            if not (self.hook.fired or fired_start):
                raise
            err = "escaped: %r" % (e,)
        self.hook.disarm()
        if sim.stuck:
            err = err or "no result within the step bound"
        if err:
            bad.insert(0, ("progress", err))
        nf = (self.hook.fired is not None) + len(fired_start)
        st["faults_fired"] += self.hook.fired is not None
        st["start_failures"] += len(fired_start)
        # a task's failure must reach its caller (a thread that cannot start need not fail the call)
        if self.hook.fired is not None and not surfaced and not bad:
            bad.append(("swallowed", "%s struck at %s but every call returned a result" % (f[1], self.hook.fired)))
        log = sim.digest()
        st["switches"] += sim.nswitch
        st["threads"] += sim.stats["threads"]
        st["yields"] += sim.stats["yields"]
        st["lock_waits"] += sim.stats["lock_waits"]
        if not bad and nf and c.get("later"):
            # afterwards everything works as before
            st["later_calls"] += 1
            sim2 = self.pysim.Sim(dict(seed=c["names"], p=0.0), max_steps=6_000_000)
            box = []

            def again():
                with dask.config.set(**kw):
                    box.append(call(c["later"], "a later call", False))
            try:
                dask.threaded.default_pool = None       # its simulated threads ended with the first simulation
                dask.threaded.pools.clear()
                sim2.run(again)
                if box[0][0] != "ok":
                    bad.append(("later", "a later call raises %s: %s" % (box[0][1].__name__, box[0][2][:200])))
            except (self.pysim.Deadlock, self.pysim.Stuck) as e:
                bad.append(("later", "a later call: %s" % e))
        if not bad and c["kind"] == "stat" and results:
            x, rows = results[0]
            P, tv, acc = samplers.exact(x)
            T = stats.Tests()
            stats.discrete(T, rows, P, tv)
            st["stat_rows"] += len(rows)
            if len(results) > 1:
                # the next call's rows are independent of these
                rows2 = results[1][1]
                stats.discrete(T, rows2, P, tv)
                st["stat_rows"] += len(rows2)
                same = sum(p * p for p in P.values())
                T.add("rows equal to the previous call's at the same place", sum(a == b for a, b in zip(rows, rows2)), min(len(rows), len(rows2)),
                        same, 2 * tv)
            st["events"] += len(T.t)
            v = T.verdict()
            if v:
                bad.append(("distribution", "parallel %s_%s of a %d-mode %s state (hbar=%s, limit=%s, %d workers): %s" % (
                    x["which"], x["fn"], x["n"], x["kind"], x["hbar"], x["limit"], c["workers"], v)))
        cc = None
        if bad and "switches" not in c["sched"]:
            cc = dict(c, sched=dict(switches=[list(s) for s in sim.switches]))
        return Outcome(viol=bad[0][1] if bad else None, vclass=bad[0][0] if bad else None, stats=st, key=digest(log, c["callers"], c["fault"], c["start"]),
                       trivial=sim.stats["threads"] < 1 and not nf, digest=digest(log, [r[1] for r in results], bad), case=cc,
                       note="%s, %d workers, %d switches" % (c["kind"], c["workers"], sim.nswitch))

    def shrink(self, group, c):
        cs = c["callers"]
        if len(cs) > 1:
            for i in range(len(cs)):
                yield dict(c, callers=cs[:i] + cs[i + 1:])
        for i, l in enumerate(cs):
            if len(l) > 1:
                for j in range(len(l)):
                    yield dict(c, callers=cs[:i] + [l[:j] + l[j + 1:]] + cs[i + 1:])
            for j, x in enumerate(l):
                if x["k"] > 1:
                    for k in (1, 2, x["k"] // 2, x["k"] - 1):
                        if 0 < k < x["k"]:
                            yield dict(c, callers=cs[:i] + [l[:j] + [dict(x, k=k)] + l[j + 1:]] + cs[i + 1:])
        s = c["sched"]
        if s.get("switches"):
            d = s["switches"]
            for step in (len(d), len(d) // 2, len(d) // 4, len(d) // 8, 1):
                if step >= 1 and len(d) // step <= 40:
                    for a in range(0, len(d), step):
                        yield dict(c, sched=dict(switches=d[:a] + d[a + step:]))
