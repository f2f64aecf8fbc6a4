"""Parallel photon-number probabilities: the sequential tensor, or the failure."""
import random, uuid, os, math
from forked import np
import core
from statprop import StatProp, state_of
from core import Outcome, digest

EXC = ("MemoryError", "RuntimeError", "LinAlgError", "ValueError", "FloatingPointError", "KeyboardInterrupt")
KINDS = ("rand", "rand", "rand", "therm", "vac", "mixsq", "pure", "coh", "vacuum", "split", "prod")


def state(c):
    if c["kind"] == "vac":      # a mixed state of some modes, vacuum in the others
        import ref
        r, n, h = np.random.default_rng(c["sseed"]), c["n"], c["hbar"]
        k = int(r.integers(1, n)) if n > 1 else 1
        m2, V2 = ref.rand_state(r, k, h, rmax=0.45, nth=0.25, disp=0.5, pure=False)
        ix = r.permutation(n)[:k]
        ix = np.concatenate([ix, ix + n])
        mu, V = np.zeros(2 * n), h / 2 * np.eye(2 * n)
        mu[ix] = m2
        V[np.ix_(ix, ix)] = V2
        return mu, V
    if c["kind"] == "vacuum":
        return np.zeros(2 * c["n"]), c["hbar"] / 2 * np.eye(2 * c["n"])
    if c["kind"] == "rand":
        import ref
        return ref.rand_state(np.random.default_rng(c["sseed"]), c["n"], c["hbar"], rmax=0.45, nth=0.25, disp=0.5, pure=False)
    if c["kind"] == "mixsq":
        mu, V = state_of(dict(c, kind="sq"))
        return mu, V + c["hbar"] / 2 * 0.3 * np.eye(len(V))
    return state_of(c)


class Prop(StatProp):
    ID = "C06"
    GROUPS = {"py": 4, "jit": 4}
    BUDGET = {"quick": 25, "thorough": 400}
    WALL = False
    RULE = ("one run = 1-2 callers (simulated threads) making 1-3 calls of probabilities(parallel=True), dask's real multiprocessing "
            "scheduler on a simulated pool of 1-4 worker processes (task order, completion order and delays seeded); workers crash before, "
            "during and after a task, tasks raise at their k-th event, worker processes cannot be started; each call returns the tensor "
            "of the sequential computation (itself compared with a definition-based model) or raises the injected failure; non-trivial = "
            "at least two tasks completed or a fault fired; distinct = distinct (calls, completion order, fault) hashes")
    PROBES = ["calls", "entries", "tasks", "out_of_order", "crashes", "task_exceptions", "start_failures", "failures_surfaced", "later_calls",
              "concurrent_callers", "pure_states", "displaced", "model_entries", "stalls"]
    REAL = ("probabilities and everything it calls, dask.delayed, dask.compute, dask's asynchronous and multiprocessing schedulers, "
            "pickling of tasks and results, separate worker processes")
    SIMULATED = "the executor (which worker takes which task, completion order, crashes, failing starts), threads, locks, clock, task names"
    ASSUMPTIONS = ["the pool breaks as concurrent.futures documents: when a worker dies every unfinished future fails with BrokenProcessPool",
                   "workers are forked before the call instead of spawned"]

    def jobs(self):
        def job(*cs):
            def f():
                from thewalrus.quantum import probabilities
                for kind, hbar, n, cutoff, s in cs:
                    mu, V = state(dict(kind=kind, hbar=hbar, n=n, sseed=s))
                    probabilities(mu, V, cutoff, hbar=hbar)
            return f
        return [[job(*[(k, 2.0, n, 3, s) for k in ("pure", "coh", "sq", "vacuum") for n in (1, 2, 3) for s in (1, 2, 3, 4)]),
                 job(("rand", 2.0, 1, 6, 2), ("rand", 2.0, 1, 6, 4)), job(("therm", 1.0, 1, 6, 1), ("therm", 1.0, 2, 4, 1)),
                 job(("mixsq", 2, 2, 3, 3)), job(*[("vac", h, n, 4, s) for h in (2.0, 1) for n, s in ((1, 1), (2, 2), (2, 5))])]]

    def after_setup(self):
        import simpool
        self.simpool = simpool
        simpool.install()

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        # the recurrence for pure states only runs compiled
        kinds = KINDS if group == "jit" else ("rand", "therm", "vac", "mixsq")

        def one():
            n = rng.choice([1, 1, 2, 2, 2, 3])
            top = {1: 8, 2: 4, 3: 2} if group == "py" else {1: 12, 2: 5, 3: 3}
            if group == "jit" and rng.random() < 0.08:
                n, top = rng.choice([(1, {1: 30}), (2, {2: 9}), (3, {3: 5}), (4, {4: 3})])
            return dict(kind=rng.choice(kinds), n=n, cutoff=rng.randint(1, top[n]), hbar=rng.choice([2.0, 2, 1, 0.5, 1.7, 4.0]), sseed=rng.getrandbits(31))
        nc = rng.choice([1, 1, 1, 2])
        w = rng.choice([1, 2, 3, 4])
        calls = [[one() for _ in range(rng.choice([1, 1, 2]) if nc > 1 else rng.choice([1, 1, 2, 3]))] for _ in range(nc)]
        for l in calls:
            if len(l) > 1 and rng.random() < 0.6:      # same shape, other state: a stale or swapped tensor shows
                l[1] = dict(l[0], sseed=rng.getrandbits(31), kind=rng.choice(kinds))
        c = dict(callers=calls, workers=w, names=rng.getrandbits(40), dseed=rng.getrandbits(40), delays=rng.choice(["none", "exp", "exp", "stall"]),
                 sched=dict(seed=rng.getrandbits(48), p=rng.choice([0.0, 0.01, 0.1, 0.3])), faults=[], start=None, chunk=rng.choice([None, None, 1, 2, 20]),
                 cfg=rng.random() < 0.5)
        x = rng.random()
        if x < 0.45:
            t = max(1, int(10 ** rng.uniform(0, 1.2)))
            if rng.random() < 0.5:
                c["faults"] = [[t, "crash", rng.choice(["before", "after", max(1, int(10 ** rng.uniform(0, 4)))])]]
            else:
                c["faults"] = [[t, rng.choice(EXC), max(1, int(10 ** rng.uniform(0, 4 if group == "py" else 2.3)))]]
        elif x < 0.52:
            c["start"] = rng.randint(1, 4)
        c["later"] = dict(calls[0][0], sseed=rng.getrandbits(31)) if c["faults"] or c["start"] else None
        return c

    def run_in_child(self, group, c):
        import threading, dask, dask.multiprocessing, hist, ref
        from thewalrus.quantum import probabilities, density_matrix_element
        from concurrent.futures.process import BrokenProcessPool
        sp = self.simpool
        E = dict(MemoryError=MemoryError, RuntimeError=RuntimeError, LinAlgError=np.linalg.LinAlgError, FloatingPointError=FloatingPointError,
                 ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt)
        st = dict(calls=0, entries=0, tasks=0, out_of_order=0, crashes=0, task_exceptions=0, start_failures=0, failures_surfaced=0, later_calls=0,
                  concurrent_callers=0, pure_states=0, displaced=0, model_entries=0, stalls=0, events=0, sim_seconds=0.0, max_workers=c["workers"])
        nr = random.Random(c["names"])
        uuid.uuid4 = lambda: uuid.UUID(int=nr.getrandbits(128), version=4)
        os.cpu_count = lambda: c["workers"]
        dask.multiprocessing.CPU_COUNT = c["workers"]
        dr = random.Random(c["dseed"])

        def delay():
            if c["delays"] == "none":
                return 0
            if c["delays"] == "stall" and dr.random() < 0.15:
                st["stalls"] += 1
                return dr.uniform(100, 1000)
            return dr.expovariate(1.0)
        ncalls = sum(map(len, c["callers"])) + bool(c["later"])
        w = sp.WORLD = sp.World(self.hook, E, min(16, c["workers"] * ncalls), dr, c["faults"], delay)
        w.fail_start = c["start"]
        cfg = {}
        if c["cfg"]:
            cfg["num_workers"] = c["workers"]
        if c["chunk"]:
            cfg["chunksize"] = c["chunk"]
        bad, results, surfaced = [], [], []

        def call(x, where):
            mu, V = state(x)
            s0 = hist.snap([mu, V])
            st["calls"] += 1
            try:
                r = ("ok", probabilities(mu, V, x["cutoff"], parallel=True, hbar=x["hbar"]))
            except (self.pysim.SimKill, self.pysim.Deadlock, self.pysim.Stuck):
                raise
            except BaseException as e:
                r = ("exc", e)
            if hist.snap([mu, V]) != s0:
                bad.append(("arguments", where + ": the caller's arguments were modified"))
            if r[0] == "ok":
                results.append((x, r[1], where))
            return r

        def caller(i):
            for j, x in enumerate(c["callers"][i]):
                where = "caller %d call %d: probabilities of a %d-mode %s state, cutoff %d, hbar %s, %d workers" % (i, j, x["n"], x["kind"], x["cutoff"], x["hbar"], c["workers"])
                nf = len(w.fired)
                r = call(x, where)
                if r[0] == "exc":
                    e = r[1]
                    kinds = {f[0] for f in w.fired}
                    ok = ("crash" in kinds and isinstance(e, BrokenProcessPool)) or ("start" in kinds and isinstance(e, OSError)) or \
                        any(k in E and isinstance(e, E[k]) and "injected" in str(e) for k in kinds)
                    if ok:
                        surfaced.append((i, j))
                        st["failures_surfaced"] += 1
                    else:
                        bad.append(("raises", "%s raises %s: %s" % (where, type(e).__name__, str(e)[:300])))

        def main():
            with dask.config.set(**cfg):
                n = len(c["callers"])
                ts = [threading.Thread(target=caller, args=(i,)) for i in range(1, n)]
                st["concurrent_callers"] += n > 1
                for t in ts:
                    t.start()
                caller(0)
                for t in ts:
                    t.join()

        sim = self.pysim.Sim(c["sched"], max_steps=3_000_000)
        self.hook.arm(sim)
        err = None
        try:
            try:
                sim.run(main)
            except (self.pysim.Deadlock, self.pysim.Stuck) as e:
                err = str(e)
            self.hook.disarm()
            if sim.stuck:
                err = err or "no result within the step bound"
            if err:
                bad.insert(0, ("progress", err))
            st["sim_seconds"] = sim.now
            fired = list(w.fired)
            for f in fired:
                st["crashes" if f[0] == "crash" else "start_failures" if f[0] == "start" else "task_exceptions"] += 1
            if [f for f in fired if f[0] != "start"] and not surfaced and not bad:
                bad.append(("swallowed", "%s in a worker, but every call returned a tensor" % (fired,)))
            if fired and c["later"] and not bad and len(w.free) >= c["workers"]:
                st["later_calls"] += 1
                w.faults, w.fail_start = {}, None
                sim2 = self.pysim.Sim(dict(seed=c["names"], p=0.0), max_steps=3_000_000)
                box = []

                def again():
                    with dask.config.set(**cfg):
                        box.append(call(c["later"], "a later call"))
                try:
                    sim2.run(again)
                    if box[0][0] != "ok":
                        bad.append(("later", "a later call raises %s: %s" % (type(box[0][1]).__name__, str(box[0][1])[:300])))
                except (self.pysim.Deadlock, self.pysim.Stuck) as e:
                    bad.append(("later", "a later call: %s" % e))
        finally:
            w.end()
        st["tasks"] += w.st["tasks"]
        st["out_of_order"] += sum(a > b for a, b in zip(w.order, w.order[1:]))
        for x, P, where in results:
            if not bad:
                self.check(x, P, where, bad, st, probabilities, density_matrix_element, ref, dr)
        log = (w.order, [(f[0], f[1]) for f in w.fired], [(digest(np.asarray(P).tobytes()), w_) for _, P, w_ in results])
        cc = None
        if bad and "switches" not in c["sched"]:
            cc = dict(c, sched=dict(switches=[list(s) for s in sim.switches]))
        return Outcome(viol=bad[0][1] if bad else None, vclass=bad[0][0] if bad else None, stats=st, key=digest(c["callers"], w.order, c["faults"], c["start"]),
                       trivial=w.st["tasks"] < 2 and not w.fired, digest=digest(log, sim.digest(), bad), case=cc,
                       note="%d calls, %d workers, order %s" % (st["calls"], c["workers"], w.order[:8]))

    def check(self, x, P, where, bad, st, probabilities, dme, ref, rng):
        mu, V = state(x)
        n, k, h = x["n"], x["cutoff"], x["hbar"]
        st["pure_states"] += x["kind"] in ("pure", "coh")
        st["displaced"] += bool(np.any(mu))
        if not isinstance(P, np.ndarray) or P.shape != (k,) * n:
            bad.append(("shape", "%s: shape %s instead of %s" % (where, np.shape(P), (k,) * n)))
            return
        if np.iscomplexobj(P) or not np.all(np.isfinite(P)) or P.min() < 0 or P.max() > 1 + 1e-9:
            bad.append(("values", "%s: entries are not probabilities" % where))
            return
        S = probabilities(mu, V, k, parallel=False, hbar=h)
        M = ref.gaussian_fock(mu, V, k - 1, h)
        st["entries"] += P.size
        st["model_entries"] += P.size
        for name, R, tol in (("the sequential computation", S, 1e-10), ("the model", M, 1e-8)):
            if R.shape != P.shape or np.abs(P - R).max() > tol:
                i = np.unravel_index(np.argmax(np.abs(P - R)), P.shape) if R.shape == P.shape else None
                bad.append(("tensor", "%s: entry %s is %s, %s gives %s" % (where, i and tuple(map(int, i)), i and P[i], name, i and R[i])))
                return
        i = tuple(rng.randrange(k) for _ in range(n))
        v = dme(mu, V, list(i), list(i), hbar=h)
        st["events"] += 1
        if abs(v - P[i]) > 1e-8:
            bad.append(("tensor", "%s: entry %s is %s, the probability of that outcome is %s" % (where, i, P[i], v)))

    def shrink(self, group, c):
        cs = c["callers"]
        if len(cs) > 1:
            for i in range(len(cs)):
                yield dict(c, callers=cs[:i] + cs[i + 1:])
        for i, l in enumerate(cs):
            if len(l) > 1:
                for j in range(len(l)):
                    yield dict(c, callers=cs[:i] + [l[:j] + l[j + 1:]] + cs[i + 1:])
            for j, x in enumerate(l):
                for y in ([dict(x, n=x["n"] - 1)] if x["n"] > 1 else []) + ([dict(x, cutoff=x["cutoff"] - 1)] if x["cutoff"] > 1 else []):
                    yield dict(c, callers=cs[:i] + [l[:j] + [y] + l[j + 1:]] + cs[i + 1:])
        if c["workers"] > 1:
            yield dict(c, workers=c["workers"] - 1)
        if c["delays"] != "none":
            yield dict(c, delays="none")
        s = c["sched"]
        if s.get("switches"):
            d = s["switches"]
            for step in (len(d), len(d) // 2, len(d) // 4, 1):
                if step >= 1 and len(d) // step <= 40:
                    for a in range(0, len(d), step):
                        yield dict(c, sched=dict(switches=d[:a] + d[a + step:]))
