"""A process pool under the simulator.

Each worker is a process forked before the simulation starts, so it shares nothing with
the caller but what is pickled to it.  A simulated thread stands for it in the simulator:
it hands over one task at a time, waits for the answer (the real process runs alone while
it computes), then lets a seeded virtual delay pass before the result is delivered.  So
the seed decides which worker takes which task, the order of completions, and every fault.
"""
import os, pickle, signal, struct, threading, time, collections, errno
import concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool


class Process:
    """A forked worker process serving pickled calls over a pipe."""

    def __init__(self, hook, exceptions):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2, hook, exceptions)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w = r2, w1
        self.alive = True

    @staticmethod
    def _get(fd):
        def read(n):
            b = b""
            while len(b) < n:
                d = os.read(fd, n - len(b))
                if not d:
                    raise EOFError
                b += d
            return b
        return read(struct.unpack("<Q", read(8))[0])

    @staticmethod
    def _put(fd, b):
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, r, w, hook, exceptions):
        import numpy as np
        while True:
            try:
                msg = self._get(r)
            except EOFError:
                return
            data, fault = pickle.loads(msg)
            if fault is not None:
                k, kind = fault
                if kind == "crash":
                    hook.arm(None, fault_at=(k, lambda: os._exit(9)))
                else:
                    hook.arm(None, fault_at=(k, lambda: exceptions[kind]("injected")))
            try:
                fn, args, kwargs = pickle.loads(data)
                np.random.seed(12345)
                try:
                    out = (True, fn(*args, **kwargs))
                except BaseException as e:
                    out = (False, e)
            except BaseException as e:
                out = (False, e)
            fired = hook.fired
            hook.disarm()
            hook.fired = None
            try:
                b = pickle.dumps(out)
            except BaseException as e:
                b = pickle.dumps((False, RuntimeError("cannot pickle the result: %r" % (e,))))
            self._put(w, pickle.dumps((b, fired)))

    def call(self, data, fault):
        """(bytes of the outcome, where the fault fired), or None when the process died."""
        try:
            self._put(self.w, pickle.dumps((data, fault)))
            return pickle.loads(self._get(self.r))
        except (EOFError, BrokenPipeError):
            self.alive = False
            return None

    def end(self):
        for fd in (self.r, self.w):
            os.close(fd)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


class World:
    """The processes and faults of one run."""

    def __init__(self, hook, exceptions, reserve, rng, faults, delay):
        self.free = [Process(hook, exceptions) for _ in range(reserve)]
        self.all = list(self.free)
        self.rng = rng
        self.faults = {f[0]: f[1:] for f in faults}     # ordinal of the task -> (kind, when)
        self.delay = delay
        self.ntask = 0
        self.nworker = 0
        self.fired = []
        self.order = []
        self.st = collections.Counter()
        self.fail_start = None

    def end(self):
        for p in self.all:
            p.end()


WORLD = None


class SimProcessPool(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._max_workers = max_workers or os.cpu_count() or 1
        self.pending = collections.deque()
        self.cond = threading.Condition()
        self.workers = []
        self.idle = 0
        self.running = []
        self.broken = None
        self.stop = False

    def submit(self, fn, /, *args, **kwargs):
        w = WORLD
        with self.cond:
            if self.broken:
                raise BrokenProcessPool(self.broken)
            if self.stop:
                raise RuntimeError("cannot schedule new futures after shutdown")
            f = cf.Future()
            data = pickle.dumps((fn, args, kwargs))
            if len(self.workers) < self._max_workers and self.idle <= len(self.pending):
                w.nworker += 1
                if w.fail_start == w.nworker:
                    w.fired.append(("start", w.nworker))
                    raise OSError(errno.EAGAIN, "injected: Resource temporarily unavailable")
                if not w.free:
                    raise RuntimeError("simulator: out of worker processes")
                t = threading.Thread(target=self.worker, args=(w.free.pop(0),), daemon=True)
                self.workers.append(t)
                start = t
            else:
                start = None
            self.pending.append((f, data))
            self.cond.notify()
        if start is not None:
            start.start()
        return f

    def worker(self, proc):
        w = WORLD
        while True:
            with self.cond:
                self.idle += 1
                while not self.pending and not self.stop and not self.broken:
                    self.cond.wait()
                self.idle -= 1
                if self.broken or not self.pending:
                    return
                f, data = self.pending.popleft()
                if not f.set_running_or_notify_cancel():
                    continue
                self.running.append(f)
                w.ntask += 1
                n = w.ntask
            d = w.delay()
            fault = w.faults.get(n)
            died = False
            if fault and fault[0] == "crash" and fault[1] == "before":
                died = True
                os.kill(proc.pid, signal.SIGKILL)
            if d > 0:
                time.sleep(d)
            if died or self.broken:
                out = None
            else:
                k = None
                if fault and isinstance(fault[1], int):
                    k = (fault[1], fault[0])
                out = proc.call(data, k)
                if out is not None and out[1]:
                    w.fired.append((fault[0], n, out[1]))
                if out is not None and fault and fault[0] == "crash" and fault[1] == "after":
                    os.kill(proc.pid, signal.SIGKILL)
                    out, died = None, True
                w.st["tasks"] += 1
            if out is None:
                if not self.broken and not (fault and fault[0] == "crash"):
                    raise RuntimeError("simulator: worker process died by itself")
                if not self.broken:
                    w.fired.append(("crash", n, fault[1]))
                self.break_all()
                return
            ok, val = pickle.loads(out[0])
            w.order.append(n)
            with self.cond:
                if self.broken:
                    return
                self.running.remove(f)
            if ok:
                f.set_result(val)
            else:
                f.set_exception(val)

    def break_all(self):
        with self.cond:
            if self.broken:
                return
            self.broken = "A process in the process pool was terminated abruptly while the future was running or pending."
            fs = self.running + [f for f, _ in self.pending]
            self.running, self.pending = [], collections.deque()
            self.cond.notify_all()
        for f in fs:
            try:
                f.set_exception(BrokenProcessPool(self.broken))
            except cf.InvalidStateError:
                pass

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.cond:
            self.stop = True
            if cancel_futures:
                for f, _ in self.pending:
                    f.cancel()
                self.pending.clear()
            self.cond.notify_all()
        if wait:
            for t in self.workers:
                t.join()


def install():
    import concurrent.futures.process, dask.multiprocessing
    cf.ProcessPoolExecutor = SimProcessPool
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPool
    dask.multiprocessing.ProcessPoolExecutor = SimProcessPool
