"""Simulated Python threads, locks, clock, worker processes and fault injection.

install() must run before numpy, dask and the package are imported.  From then on
every lock made through `threading` is a SimLock; while a Sim is running, every
thread started through `threading` (so: concurrent.futures pools and dask's real
threaded scheduler) is a simulated thread: a parked OS thread that runs only when
the seeded scheduler hands it the baton.  Exactly one thread runs at any time, so
the list of scheduling decisions determines the execution.

Yield points: lock operations, thread start/end, sleeping, and (through
sys.monitoring) every source line, or every bytecode, of the package's own code.
The same hook injects exceptions at chosen points.
"""
import sys, os, threading, _thread, queue, random, hashlib, time as _time

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident
ACTIVE = None          # the running Sim
FILES = ()             # path prefix of traced code

class SimKill(SystemExit):
    pass


class Deadlock(BaseException):
    pass


class Stuck(BaseException):
    pass


class SimLock:
    """threading.Lock / RLock replacement."""
    __slots__ = ("owner", "count", "re", "__weakref__", "internal")

    def __init__(self, re=False):
        self.owner = None
        self.count = 0
        self.re = re

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = _get_ident()
        if s is not None and me in s.by_ident:
            s.yield_point(None)
            if self.re and self.owner == me:
                self.count += 1
                return True
            if self.owner is not None:
                if not blocking:
                    return False
                if not s.block(self, timeout):
                    return False
            self.owner = me
            self.count = 1
            return True
        if self.re and self.owner == me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            # outside a simulation nothing else runs
            end = _time.monotonic() + (timeout if timeout >= 0 else 20)
            while self.owner is not None:
                if _time.monotonic() > end:
                    if timeout >= 0:
                        return False
                    raise Deadlock("lock never released")
                _real_sleep(0.001)
        self.owner = me
        self.count = 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.re:
            if self.owner != _get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self.count -= 1
            if self.count:
                return
        self.owner = None
        s = ACTIVE
        if s is not None:
            s.wake(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    # for Condition
    def _is_owned(self):
        if self.re:
            return self.owner == _get_ident()
        return self.owner is not None

    def _release_save(self):
        c = self.count
        self.count = 1 if self.re else self.count
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


# Condition uses _release_save etc. when the lock has them; for a plain lock the
# defaults (release/acquire) are equivalent.


def make_lock():
    return SimLock(False)


def make_rlock():
    return SimLock(True)


class Task:
    __slots__ = ("id", "gate", "state", "wait", "deadline", "ident", "sentinel", "timed_out", "name", "started")

    def __init__(self, id, name=None):
        self.id = id
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "run"
        self.wait = None
        self.deadline = None
        self.ident = None
        self.sentinel = None
        self.timed_out = False
        self.name = name
        self.started = False


class Sim:
    """One simulated execution.

    sched: {"seed":int, "p":float, "burst":float} or {"switches":[[step, task],...]}
    """

    def __init__(self, sched, max_steps=3_000_000, line_yield=True):
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.max_steps = max_steps
        self.replay = None
        self.ri = 0
        self.switches = []
        self.h = hashlib.sha256()
        self.killing = False
        self.now = 0.0
        self.line_yield = line_yield
        self.nswitch = 0
        self.stats = dict(yields=0, switches=0, threads=0, lock_waits=0, timeouts=0)
        self.cur = None
        self.where = None
        self.dead = None
        self.stuck = False
        if "switches" in sched:
            self.replay = [tuple(x) for x in sched["switches"]]
        else:
            self.rng = random.Random(sched.get("seed", 0))
            self.p = sched.get("p", 0.0)
            self.burst = sched.get("burst", 0.0)
        self.next = -1
        self._plan()

    # -- choosing -------------------------------------------------------
    def _plan(self):
        """Decide at which step the next voluntary switch happens."""
        if self.replay is not None:
            while self.ri < len(self.replay) and self.replay[self.ri][0] < self.step:
                self.ri += 1
            self.next = self.replay[self.ri][0] if self.ri < len(self.replay) else 1 << 60
            return
        p = self.p
        if p <= 0:
            self.next = 1 << 60
        elif p >= 1:
            self.next = self.step + 1
        else:
            if self.burst and self.rng.random() < self.burst:
                self.next = self.step + self.rng.randrange(1, 4)
            else:
                import math
                u = self.rng.random()
                self.next = self.step + 1 + int(math.log(1 - u) / math.log(1 - p))

    def runnable(self):
        return [t for t in self.tasks if t.state == "run"]

    def _choose(self, voluntary):
        r = self.runnable()
        if not r:
            timed = [t for t in self.tasks if t.state == "blocked" and t.deadline is not None]
            if not timed:
                return None
            t = min(timed, key=lambda t: (t.deadline, t.id))
            self.now = max(self.now, t.deadline)
            t.timed_out = True
            t.state = "run"
            t.wait = None
            self.stats["timeouts"] += 1
            return t
        if self.replay is not None:
            while self.ri < len(self.replay) and self.replay[self.ri][0] < self.step:
                self.ri += 1
            if self.ri < len(self.replay) and self.replay[self.ri][0] == self.step:
                tid = self.replay[self.ri][1]
                self.ri += 1
                for t in r:
                    if t.id == tid:
                        return t
            if voluntary and self.cur in r:
                return self.cur
            return r[0]
        return self.rng.choice(r)

    def _switch(self, voluntary):
        me = self.cur
        t = self._choose(voluntary)
        self._plan()
        if t is None:
            self._deadlock()
            return
        if t is me:
            return
        self.nswitch += 1
        self.switches.append((self.step, t.id))
        self.h.update(b"%d:%d>%d;" % (self.step, me.id, t.id))
        if self.where is not None:
            self.h.update(repr(self.where).encode())
        self.cur = t
        t.gate.release()
        if me.state != "done":
            me.gate.acquire()
            self._resumed(me)

    def _resumed(self, me):
        if self.killing and me.id != 0:
            raise SimKill()
        if self.dead and me.id == 0:
            raise self.dead

    def _deadlock(self):
        # nobody can run: tell task 0
        self.dead = Deadlock("deadlock: every thread is blocked: " + ", ".join("%d:%s" % (t.id, t.state) for t in self.tasks))
        main = self.tasks[0]
        me = self.cur
        main.state = "run"
        main.wait = None
        if me is main:
            raise self.dead
        self.cur = main
        main.gate.release()
        if me.state != "done":
            me.gate.acquire()
            self._resumed(me)

    # -- called from simulated code --------------------------------------
    def yield_point(self, where):
        if self.cur.ident != _get_ident():
            return
        if self.killing:
            if self.cur.id != 0:
                raise SimKill()
            return
        self.step += 1
        if self.step > self.max_steps:
            self.max_steps += 10_000_000
            self.stuck = True
            raise Stuck("no result within the step bound")
        if self.step >= self.next:
            self.where = where
            self._switch(True)

    def block(self, lock, timeout=-1):
        """Wait until the lock is free. Caller then owns it."""
        me = self.cur
        me.deadline = None if timeout is None or timeout < 0 else self.now + timeout
        self.stats["lock_waits"] += 1
        while lock.owner is not None:
            if self.killing and me.id != 0:
                raise SimKill()
            if me.deadline is not None and self.now >= me.deadline and me.timed_out:
                me.timed_out = False
                return False
            me.state = "blocked"
            me.wait = lock
            me.timed_out = False
            self.step += 1
            try:
                self._switch(False)
            finally:
                me.state = "run"
                me.wait = None
            if me.timed_out and lock.owner is not None:
                me.timed_out = False
                me.deadline = None
                return False
        me.deadline = None
        return True

    def sleep(self, secs):
        me = self.cur
        me.deadline = self.now + max(secs, 0)
        me.state = "blocked"
        me.wait = None
        me.timed_out = False
        self.step += 1
        self._switch(False)
        me.deadline = None

    def wake(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.wait is lock:
                t.state = "run"
                t.wait = None

    def spawn(self, fn, args, kwargs=None):
        t = Task(len(self.tasks))
        self.tasks.append(t)
        self.stats["threads"] += 1

        def boot():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            t.gate.acquire()
            try:
                if not self.killing:
                    fn(*args, **(kwargs or {}))
            except BaseException as e:
                self.note_thread_exc(e)
            finally:
                t.state = "done"
                if t.sentinel is not None and t.sentinel.owner is not None:
                    t.sentinel.owner = None
                    self.wake(t.sentinel)
                self.by_ident.pop(t.ident, None)
                self._finish(t)
        _real_start(boot, ())
        # wait until the OS thread is parked on its gate (no simulated effect)
        while t.ident is None:
            _real_sleep(0)
        return t.ident

    def note_thread_exc(self, e):
        pass

    def _finish(self, t):
        self.step += 1
        if self.killing:
            self.cur = self.tasks[0]
            self.tasks[0].gate.release()
            return
        nxt = self._choose(False)
        self._plan()
        if nxt is None:
            self._deadlock()
            return
        self.nswitch += 1
        self.switches.append((self.step, nxt.id))
        self.h.update(b"%d:%d.%d;" % (self.step, t.id, nxt.id))
        self.cur = nxt
        nxt.gate.release()

    # -- running ---------------------------------------------------------
    def run(self, fn):
        global ACTIVE
        t = Task(0, "main")
        t.ident = _get_ident()
        self.tasks.append(t)
        self.by_ident[t.ident] = t
        self.cur = t
        ACTIVE = self
        try:
            return fn()
        finally:
            self._kill_rest()
            ACTIVE = None
            self.stats["yields"] = self.step
            self.stats["switches"] = self.nswitch

    def _kill_rest(self):
        self.killing = True
        main = self.tasks[0]
        for t in self.tasks[1:]:
            n = 0
            while t.state != "done" and n < 50:
                n += 1
                t.state = "run"
                t.wait = None
                self.cur = t
                t.gate.release()
                main.gate.acquire()
                self.cur = main

    def digest(self):
        return self.h.hexdigest()[:16]


# While a task is being killed it must not switch to anything but main.
def _kill_switch(self, voluntary, _orig=Sim._switch):
    if self.killing:
        me = self.cur
        if me.id == 0:
            return
        raise SimKill()
    return _orig(self, voluntary)


Sim._switch = _kill_switch


def _start_new_thread(fn, args, kwargs={}):
    s = ACTIVE
    if s is not None and _get_ident() in s.by_ident:
        i = s.spawn(fn, args, kwargs)
        s.yield_point(None)
        return i
    return _real_start(fn, args, kwargs)


def _set_sentinel():
    s = ACTIVE
    l = SimLock(False)
    if s is not None:
        t = s.by_ident.get(_get_ident())
        if t is not None:
            t.sentinel = l
            return l
    return threading_real_sentinel()


threading_real_sentinel = threading._set_sentinel
_real_sleep = _time.sleep


def _sleep(secs):
    s = ACTIVE
    if s is not None and _get_ident() in s.by_ident:
        return s.sleep(secs)
    return _real_sleep(secs)


INSTALLED = False


def install(files):
    """Patch threading's primitives.  Before numpy/dask/the package are imported."""
    global INSTALLED, FILES
    FILES = (files,)
    if INSTALLED:
        return
    INSTALLED = True
    assert "numpy" not in sys.modules and "concurrent.futures.thread" not in sys.modules, "pysim.install() came too late"
    threading.Lock = make_lock
    threading._allocate_lock = make_lock
    threading.RLock = make_rlock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    # Thread objects made by main before this point are unaffected
    queue.SimpleQueue = queue._PySimpleQueue
    # objects that pools keep in sets: iterate these in the same order in every process
    import concurrent.futures._base as cfb
    count = [0]

    def stable(self):
        h = self.__dict__.get("_sim_hash")
        if h is None:
            count[0] += 1
            h = self.__dict__["_sim_hash"] = count[0]
        return h
    threading.Thread.__hash__ = stable
    cfb.Future.__hash__ = stable
    _time.sleep_real = _real_sleep
    _time.sleep = _sleep
    threading.excepthook = lambda a: None
    import logging
    logging.raiseExceptions = False
    logging.disable(logging.CRITICAL)


# ---------------------------------------------------------------------------
# hooks into the package's own code
TOOL = 3
_codes = None


def package_codes(prefix):
    """All code objects of functions defined in files under prefix (not tests)."""
    import types
    seen = {}

    def add(c):
        if id(c) in seen:
            return
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    import gc
    for o in gc.get_objects():
        if type(o) is types.FunctionType and o.__code__.co_filename.startswith(prefix):
            add(o.__code__)
    return list(seen.values())


class Hook:
    """Line/instruction callbacks on the package's code: yields and faults."""

    def __init__(self, prefix, instructions=False):
        import ast
        mon = sys.monitoring
        self.codes = package_codes(prefix)
        self.instructions = instructions
        mon.use_tool_id(TOOL, "verif")
        self.ev = mon.events
        mask = self.ev.LINE | self.ev.CALL | (self.ev.INSTRUCTION if instructions else 0)
        for c in self.codes:
            mon.set_local_events(TOOL, c, mask)
        self.skip = {}
        for f in {c.co_filename for c in self.codes}:
            self.skip[f] = self._unsafe_lines(f, ast)
        mon.register_callback(TOOL, self.ev.LINE, self.on_line)
        mon.register_callback(TOOL, self.ev.CALL, self.on_call)
        if instructions:
            mon.register_callback(TOOL, self.ev.INSTRUCTION, self.on_instr)
        self.sim = None
        self.fault_at = None      # (event index, exception factory)
        self.count = 0
        self.fired = None
        self.enabled = False
        self.lines = None
        self.only = None
        self.tids = {}
        self.tfault = {}

    # faults aimed at one thread's next operation
    def bind(self, tid):
        self.tids[_get_ident()] = tid

    def thread_fault(self, tid, k, exc):
        if k is None:
            self.tfault.pop(tid, None)
        else:
            self.tfault[tid] = [k, exc, False]

    def thread_fired(self, tid):
        f = self.tfault.get(tid)
        return f is not None and f[2]

    @staticmethod
    def _unsafe_lines(f, ast):
        """Lines where no fault is injected: `with` headers (the exit call is reported
        there), bodies of handlers and finally blocks, `try:` itself."""
        bad = set()
        try:
            tree = ast.parse(open(f).read())
        except (OSError, SyntaxError):
            return bad
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad.update(range(n.lineno, n.body[0].lineno if n.body[0].lineno > n.lineno else n.lineno + 1))
            elif isinstance(n, ast.Try):
                bad.add(n.lineno)
                for h in n.handlers:
                    bad.update(range(h.lineno, h.end_lineno + 1))
                if n.finalbody:
                    bad.update(range(n.finalbody[0].lineno, n.finalbody[-1].end_lineno + 1))
            elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__", "release", "close"):
                bad.update(range(n.lineno, n.end_lineno + 1))
        return bad

    def off(self):
        """No callbacks at all until on()."""
        for c in self.codes:
            sys.monitoring.set_local_events(TOOL, c, 0)

    def on(self):
        mask = self.ev.LINE | self.ev.CALL | (self.ev.INSTRUCTION if self.instructions else 0)
        for c in self.codes:
            sys.monitoring.set_local_events(TOOL, c, mask)

    def arm(self, sim=None, fault_at=None, only=None):
        self.sim = sim
        self.fault_at = fault_at
        self.count = 0
        self.fired = None
        self.only = only
        self.enabled = True
        self.tids = {}
        self.tfault = {}

    def disarm(self):
        self.enabled = False
        self.sim = None

    def _event(self, code, where, kind):
        if self.tfault:
            f = self.tfault.get(self.tids.get(_get_ident()))
            if f is not None and not f[2]:
                f[0] -= 1
                if f[0] <= 0:
                    f[2] = True
                    self.fired = (os.path.basename(code.co_filename), code.co_name, where, kind)
                    raise f[1]("injected")
        if self.only is not None and _get_ident() != self.only:
            return
        self.count += 1
        fa = self.fault_at
        if fa is not None and self.count == fa[0] and self.fired is None:
            self.fired = (os.path.basename(code.co_filename), code.co_name, where, kind)
            raise fa[1]()

    def on_line(self, code, line):
        if not self.enabled:
            return
        s = self.sim
        if s is not None and s.line_yield and ACTIVE is s:
            s.yield_point((code.co_name, line))
        if line in self.skip.get(code.co_filename, ()):
            return
        self._event(code, line, "line")

    def on_call(self, code, offset, callable_, arg0):
        if not self.enabled or (self.fault_at is None and not self.tfault):
            return
        n = getattr(callable_, "__name__", "")
        if n in ("__exit__", "release", "__enter__", "acquire", "close", "__aexit__"):
            return
        try:
            line = _line_of(code, offset)
        except Exception:
            line = 0
        if line in self.skip.get(code.co_filename, ()):
            return
        self._event(code, line, "call " + str(n))

    def on_instr(self, code, offset):
        if not self.enabled:
            return
        s = self.sim
        if s is not None and ACTIVE is s:
            s.yield_point((code.co_name, -offset))


_linecache = {}


def _line_of(code, offset):
    t = _linecache.get(code)
    if t is None:
        t = _linecache[code] = list(code.co_lines())
    for a, b, l in t:
        if a <= offset < b:
            return l or 0
    return 0
