"""Reference enumerations under interleaved, aborted, interrupted and concurrent consumers."""
import gc, random, sys
from collections import Counter
import core
from core import Outcome, digest, HarnessError
from forked import ForkedProp

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


def model(s, singles, pairs):
    """Multiset of partitions of positions of s into singles/pairs, as canonical tuples of blocks."""
    out = []

    def rec(rest, acc):
        if not rest:
            out.append(tuple(sorted(acc)))
            return
        a, rest = rest[0], rest[1:]
        if singles:
            rec(rest, acc + [(a,)])
        if pairs:
            for i, b in enumerate(rest):
                rec(rest[:i] + rest[i + 1:], acc + [tuple(sorted((a, b)))])
    rec(tuple(s), [])
    return Counter(out)


def canon(p, kind):
    bl = []
    for b in p:
        if not isinstance(b, tuple):      # a single pair may be given flat
            return (tuple(sorted(p)),)
        if kind == "spm" and len(b) == 2 and b[0] == b[1]:
            b = (b[0],)
        bl.append(tuple(sorted(b)))
    return tuple(sorted(bl))


KINDS = {"spm": (True, True), "pmp": (False, True), "part": (True, True), "single": (True, False), "pairs": (False, True)}
_M = {}


def want(kind, s):
    k = (KINDS[kind], tuple(s))
    if k not in _M:
        _M[k] = model(s, *KINDS[kind])
    return _M[k]


class Prop(ForkedProp):
    ID = "C18"
    LEVEL = "exploration"
    GROUPS = {"one": 4, "threads": 4}
    BUDGET = {"quick": 25, "thorough": 400}
    RULE = ("one run = a seeded history of up to 40 operations (start, advance, abandon, interrupt consumers of the reference "
            "enumerations, reference hafnians) in one thread, or up to 5 simulated threads each running such a history with "
            "preemption at source lines and locks of the package; every complete enumeration compared with the model's multiset; "
            "non-trivial = at least two consumers overlapped or a fault fired; distinct = distinct hashes of the history and "
            "of the schedule taken")
    REAL = "thewalrus.reference of the current tree, run by the real interpreter"
    SIMULATED = "thread scheduling and locks (pysim), exceptions injected at source lines of the package"
    ASSUMPTIONS = ["labels within one tuple are distinct as values", "an individual iterator is consumed by one thread"]
    PROBES = ["faults_fired", "thread_switches", "abandoned", "complete"]

    def setup(self, group, tier):
        import pysim
        pysim.install(core.REPO + "/thewalrus")
        import warnings
        warnings.simplefilter("ignore")
        import thewalrus.reference as R
        if not R.__file__.startswith(core.REPO):
            raise HarnessError("wrong thewalrus: " + R.__file__)
        self.R = R
        self.pysim = pysim
        self.hook = pysim.Hook(R.__file__)

    # -- generation ------------------------------------------------------
    def case(self, group, seed, tier):
        rng = random.Random(seed)
        big = 7 if tier == "quick" else 8
        base = rng.randint(0, 3)
        pool = []
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([3, 4, 4, 5, 6, 6] + ([big] if rng.random() < 0.15 else []))
            st = rng.choice(["range", "range", "range", "tail", "sub", "str"])
            if st == "range":
                s = list(range(n))
            elif st == "tail":
                s = list(range(base, base + n))
            elif st == "sub":
                s = sorted(rng.sample(range(9), n))
            else:
                s = list("abcdefghi"[:n])
            pool.append(s)
        c = dict(pool=pool, faults=rng.random() < 0.6)
        if group == "one":
            c["threads"] = [self.ops(rng, pool, rng.randint(4, 40), c["faults"])]
            c["sched"] = None
        else:
            nt = rng.randint(2, 5)
            c["threads"] = [self.ops(rng, pool, rng.randint(1, 10), c["faults"] and rng.random() < 0.5) for _ in range(nt)]
            c["sched"] = dict(seed=rng.getrandbits(50), p=rng.choice([0.001, 0.01, 0.05, 0.2, 0.5]), burst=rng.choice([0, 0, 0.5]))
        return c

    def ops(self, rng, pool, k, faults):
        ops, live, nid = [], [], 0
        for _ in range(k):
            x = rng.random()
            if not live or x < 0.25:
                kind = rng.choice(["spm", "pmp", "part", "single", "pairs", "spm", "pmp"])
                s = list(rng.choice(pool))
                if rng.random() < 0.3 and len(s) > 3:
                    s = s[1:]
                if kind in ("pmp", "pairs") and len(s) % 2 and rng.random() < 0.8:
                    s = s[:-1] if len(s) > 3 else s + ["z" if isinstance(s[0], str) else 99]
                ops.append(["new", nid, kind, s])
                live.append(nid)
                nid += 1
            elif x < 0.55:
                ops.append(["adv", rng.choice(live), rng.choice([1, 1, 2, 3, 5, 20, 200])])
            elif x < 0.65:
                ops.append(["end", live.pop(rng.randrange(len(live)))])
            elif x < 0.75:
                ops.append(["drop", live.pop(rng.randrange(len(live))), rng.randrange(3)])
            elif x < 0.9 and faults:
                ops.append(["fault", rng.choice(live), rng.choice([1, 1, 2, 3, 10, 100]), rng.choice([1, 2, 3, 5, 8, 13, 30, 80, 200]), rng.choice(list(EXC))])
            elif x < 0.95:
                ops.append(["haf", rng.getrandbits(20), rng.choice([3, 4, 5, 6]), rng.randrange(2)])
            else:
                ops.append(["T", rng.randint(0, 9)])
        return ops

    # -- execution -------------------------------------------------------
    def start(self, kind, s):
        R = self.R
        s = tuple(s)
        if kind == "spm":
            return R.spm(s)
        if kind == "pmp":
            return R.pmp(s)
        if kind == "part":
            return R.partitions(s)
        return R.partitions(s, *KINDS[kind])

    def check(self, kind, s, items):
        got = Counter(canon(p, kind) for p in items)
        w = want(kind, s)
        if got != w:
            miss, extra = w - got, got - w
            return "%s of %r yielded %d matchings, %d missing (e.g. %s), %d extra (e.g. %s)" % (
                kind, tuple(s), sum(got.values()), sum(miss.values()), next(iter(miss), None), sum(extra.values()), next(iter(extra), None))
        return None

    def script(self, ops, st, hook, tid):
        """Run one thread's operations; returns a violation text or None."""
        live = {}
        busy = 0
        for op in ops:
            o = op[0]
            if o == "new":
                live[op[1]] = (op[2], op[3], iter(self.start(op[2], op[3])), [])
                st["max_consumers"] = max(st.get("max_consumers", 0), len(live))
                continue
            if o == "haf":
                r = random.Random(op[1])
                n, loop = op[2], op[3]
                import numpy as np
                A = np.array([[r.randint(-3, 3) for _ in range(n)] for _ in range(n)], dtype=object)
                A = np.triu(A) + np.triu(A, 1).T
                got = self.R.hafnian(A, loop=bool(loop))
                w = 0
                for p, mult in model(range(n), bool(loop), True).items():
                    t = mult
                    for b in p:
                        t *= A[b[0], b[-1]]
                    w += t
                if got != w:
                    return "reference hafnian %r, sum over matchings %r (n=%d loop=%d)" % (got, w, n, loop)
                st["hafnians"] += 1
                continue
            if o == "T":
                got = self.R.T(op[1])
                w = sum(model(range(op[1]), True, True).values()) if op[1] else 1
                if got != w:
                    return "T(%d) = %r, there are %d matchings" % (op[1], got, w)
                continue
            if op[1] not in live:
                continue
            kind, s, it, items = live[op[1]]
            if o == "drop":
                if op[2] == 0 and hasattr(it, "close"):
                    it.close()
                del it, live[op[1]]
                if op[2] == 1:
                    gc.collect()
                st["abandoned"] += 1
                continue
            fired = False
            done = False
            k = {"adv": op[2] if len(op) > 2 else 0, "fault": op[2] if len(op) > 2 else 0, "end": 1 << 30}[o]
            if o == "fault":
                hook.thread_fault(tid, op[3], EXC[op[4]])
            try:
                for _ in range(k):
                    try:
                        items.append(next(it))
                    except StopIteration:
                        done = True
                        break
            except (KeyboardInterrupt, MemoryError, RuntimeError) as e:
                if not hook.thread_fired(tid):
                    return "consumer of %s%r failed: %s: %s" % (kind, tuple(s), type(e).__name__, e)
                fired = True
            finally:
                if o == "fault":
                    fired = hook.thread_fired(tid) or fired
                    hook.thread_fault(tid, None, None)
            if fired:
                st["faults_fired"] += 1
                live.pop(op[1], None)
                continue
            if done:
                live.pop(op[1], None)
                st["complete"] += 1
                bad = self.check(kind, s, items)
                if bad:
                    return bad
        for i in sorted(live):
            kind, s, it, items = live[i]
            for p in it:
                items.append(p)
            st["complete"] += 1
            bad = self.check(kind, s, items)
            if bad:
                return bad
        return None

    def run_in_child(self, group, case):
        gc.disable()
        st = dict(faults_fired=0, abandoned=0, complete=0, hafnians=0, thread_switches=0, yields=0, lock_waits=0, consumers=0)
        hk = self.hook
        th = case["threads"]
        out = [None] * len(th)
        sched = None
        sim = self.pysim.Sim(case["sched"] or dict(seed=0, p=0.0), max_steps=5_000_000)
        hk.arm(sim)

        def body(i):
            try:
                out[i] = self.script(th[i], st, hk, i)
            except self.pysim.SimKill:
                raise
            except Exception as e:
                out[i] = "%s: %s" % (type(e).__name__, e)

        def main():
            if len(th) == 1:
                hk.bind(0)
                body(0)
                return
            import threading

            def t(i):
                hk.bind(i)
                body(i)
            ts = [threading.Thread(target=t, args=(i,)) for i in range(len(th))]
            for t_ in ts:
                t_.start()
            for t_ in ts:
                t_.join()
        err = None
        try:
            sim.run(main)
        except (self.pysim.Deadlock, self.pysim.Stuck) as e:
            err = str(e)
        hk.disarm()
        if err is None and sim.stuck:
            err = "no result within the step bound"
        if err is None:
            err = next((o for o in out if o), None)
        if err is None:
            # nothing that happened may affect a later consumer
            seen = set()
            for ops in th:
                for op in ops:
                    if op[0] == "new":
                        s = tuple(op[3])
                        for kind in ("spm", "pmp", op[2]):
                            for q in (s, s[1:]):
                                if (kind, q) in seen or len(q) < 3:
                                    continue
                                seen.add((kind, q))
                                bad = self.check(kind, q, list(self.start(kind, q)))
                                if bad and err is None:
                                    err = "afterwards " + bad
                        st["consumers"] += 1
        st["thread_switches"] = sim.stats["switches"]
        st["yields"] = sim.stats["yields"]
        st["lock_waits"] = sim.stats["lock_waits"]
        c = None
        if err and case["sched"] and "switches" not in case["sched"]:
            c = dict(case, sched=dict(switches=[list(x) for x in sim.switches]))
        key = digest(case["threads"], sim.digest())
        triv = st["consumers"] < 2 and not st["faults_fired"]
        return Outcome(viol=err, vclass=None if err is None else "enumeration", stats=st, key=key, trivial=triv,
                       digest=digest(key, sorted(st.items()), err), case=c)

    def shrink(self, group, case):
        th = case["threads"]
        if len(th) > 1:
            for i in range(len(th)):
                yield dict(case, threads=th[:i] + th[i + 1:])
        for i, ops in enumerate(th):
            n = len(ops)
            for step in (n // 2, n // 4, 1):
                if step >= 1:
                    for a in range(0, n, step):
                        yield dict(case, threads=th[:i] + [ops[:a] + ops[a + step:]] + th[i + 1:])
        s = case["sched"]
        if s and s.get("switches"):
            d = s["switches"]
            for step in (len(d), len(d) // 2, len(d) // 4, len(d) // 8, 1):
                if step >= 1:
                    for a in range(0, len(d), step):
                        yield dict(case, sched=dict(switches=d[:a] + d[a + step:]))
