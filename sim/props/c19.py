"""Library calls leave process-wide state untouched."""
import os, sys, random, gc
import hist
from hist import HistProp, EXC, shrink_list
from core import Outcome, digest


def state(full=True):
    """Everything process-wide a library could disturb."""
    import numpy as np, warnings, decimal, locale, threading, signal, builtins
    s = {}
    st = np.random.get_state()
    s["numpy random stream"] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
    s["python random stream"] = hash(random.getstate())
    s["floating-point error handling"] = (tuple(sorted(np.geterr().items())), repr(np.geterrcall()), np.getbufsize())
    s["warning filters"] = tuple(map(repr, warnings.filters)), warnings.showwarning is _SHOW[0] if _SHOW else None
    s["print options"] = repr(sorted(np.get_printoptions().items(), key=lambda x: x[0]))
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["decimal context"] = repr(decimal.getcontext())
    s["signal handlers"] = tuple(repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGSEGV))
    s["environment"] = tuple(sorted((k, v) for k, v in os.environ.items() if k != "PYTHONHASHSEED"))
    s["working directory"] = os.getcwd()
    s["standard streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.excepthook), id(sys.displayhook))
    s["threads"] = threading.active_count()
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold())
    s["tracing"] = (sys.gettrace(), sys.getprofile())
    s["umask"] = _umask()
    if "dask" in sys.modules:
        import dask
        s["task scheduler configuration"] = repr(dask.config.config)
    if "numba" in sys.modules:
        import numba
        from numba.core import config
        try:
            s["worker threads"] = (numba.get_num_threads(), config.NUMBA_NUM_THREADS, config.THREADING_LAYER)
        except Exception as e:
            s["worker threads"] = repr(e)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s["compiled random stream"] = _nbstate()
    x = float("1e-308")         # a sixteenth is a subnormal number, unless the processor was told to flush them to zero
    s["floating-point unit"] = (x / 16, x * 0 + float("1e-320"), 1.0 + 2 ** -53, 1.0 + 2 ** -53 * 1.5)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["import machinery"] = (len(sys.path), tuple(sys.path), len(sys.meta_path), len(sys.path_hooks))
    s["modules replaced"] = tuple(id(sys.modules.get(m)) for m in ("numpy", "scipy", "numba", "dask", "random", "threading", "warnings"))
    s["patched functions"] = tuple(id(f) for f in (np.sqrt, np.dot, np.array, np.random.normal, np.random.seed, np.random.default_rng, builtins.print, builtins.open, threading.Thread, os.fork))
    try:
        s["open files"] = len(os.listdir("/proc/self/fd"))
    except OSError:
        pass
    return s


_SHOW = []


def _nbstate():
    from numba import _helperlib
    st = _helperlib.rnd_get_state(_helperlib.rnd_get_np_state_ptr())
    return st[0], hash(tuple(st[1])), st[2:]


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def diff(a, b, skip=()):
    return [k for k in a if a[k] != b.get(k) and k not in skip]


class Prop(HistProp):
    ID = "C19"
    RULE = ("one run = 3-8 calls, a third struck by an exception at a random point inside the package, started from a random "
            "process-wide configuration (random state, error handling, warning filters, print options, recursion limit); the whole "
            "process-wide state compared before and after every call, and results of deterministic calls compared with those under "
            "another random state; non-trivial = every run; distinct = distinct (calls, fault sites, configuration)")
    PROBES = ["faults_fired", "returned", "raised", "configured"]

    def before_import(self):
        import warnings
        import numpy as np
        import sympy, numba, dask, dask.threaded, dask.multiprocessing, scipy.linalg, scipy.special, scipy.stats, scipy.sparse
        _SHOW[:] = [warnings.showwarning]
        np.random.seed(3)
        self.pre = state()

    def after_import(self):
        self.import_diff = diff(self.pre, state())

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        ops = []
        for _ in range(rng.randint(3, 8)):
            c = self.vary(rng, self.pick(rng, self.names) + [self.some_seed(rng)], 0.15)
            ops.append([c, [round(rng.random(), 6), rng.choice(EXC)] if rng.random() < 0.35 else None])
        return dict(ops=ops, stray=rng.getrandbits(30), conf=dict(err=rng.choice(["warn", "ignore", "raise0", "print"]), prec=rng.choice([4, 8, 12]),
                    filt=rng.choice(["default", "ignore", "always"]), rec=rng.choice([5000, 3000, 1700]), lines=rng.choice([75, 120])))

    def run(self, group, case):
        for c, f in case["ops"]:
            self.alone(c)
        return super().run(group, case)

    def run_in_child(self, group, case):
        import numpy as np, warnings
        st = dict(faults_fired=0, returned=0, raised=0, calls=0, configured=1)
        cf = case["conf"]
        np.seterr(**({"all": cf["err"]} if cf["err"] != "raise0" else {"divide": "warn", "over": "ignore", "under": "ignore", "invalid": "warn"}))
        np.set_printoptions(precision=cf["prec"], linewidth=cf["lines"])
        warnings.simplefilter(cf["filt"])
        sys.setrecursionlimit(cf["rec"])
        sys.stderr = open(os.devnull, "w")
        sys.stdout = sys.stderr
        bad = None
        if self.import_diff:
            bad = "importing the package changed: " + ", ".join(self.import_diff)
        log, keys = [], []
        for c, f in case["ops"]:
            if bad:
                break
            kind = self.kind(c[0])
            self.seed_rng((case["stray"] if kind != "rng" else self.rs_of(c)))
            args = self.args(c)
            a = state()
            fired = None
            if f:
                n = self.alone(c)[1]
                r, fired = self.faulted(c, 1 + int(f[0] * n), f[1], args)
                st["faults_fired"] += fired is not None
            else:
                r = self.raw(c, args)
            b = state()
            st["calls"] += 1
            st["raised" if r[0] == "exc" else "returned"] += 1
            d = diff(a, b, skip=("numpy random stream", "compiled random stream") if kind in ("rng", "nrng") else ("compiled random stream",) if kind == "seeded" else ())
            keys.append((c[:2], fired and fired[:3]))
            log.append((c, fired, r[0], d))
            what = "%s%s" % (self.name(c), " (struck by %s at %s)" % (f[1], fired) if fired else "")
            if d:
                bad = "%s changed: %s" % (what, ", ".join("%s (%s -> %s)" % (k, str(a[k])[:60], str(b[k])[:60]) if k != "numpy random stream" else k for k in d))
            elif kind in ("det", "seeded") and fired is None and not self.agree(self.norm_result(r), self.alone(c)[0]):
                bad = "%s depends on process-wide state: %s, in a fresh process %s" % (what, self.text(self.norm_result(r)), self.text(self.alone(c)[0]))
        return Outcome(viol=bad, vclass="state" if bad else None, stats=st, key=digest(keys, cf), digest=digest(log, bad), note=str(keys[:2]))

    def shrink(self, group, case):
        for c in shrink_list(case, "ops"):
            if c["ops"]:
                yield c
        for i, (c, f) in enumerate(case["ops"]):
            if f:
                yield dict(case, ops=case["ops"][:i] + [[c, None]] + case["ops"][i + 1:])
