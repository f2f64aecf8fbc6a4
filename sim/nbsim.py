"""Installs the simulated numba threading layer and the IR instrumentation.

Must be imported before anything compiles a parallel numba function.  All real
threads disappear: parallel regions run as coroutines on the calling OS thread,
scheduled by nbsim.c from a seed or from a recorded decision list.
"""
import ctypes, os, re, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None
MAXLOG = 1 << 18


def _build():
    src = os.path.join(HERE, "nbsim.c")
    d = tempfile.mkdtemp(prefix="nbsim-")
    so = os.path.join(d, "nbsim.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, src, "-lm"], check=True)
    lib = ctypes.CDLL(so)
    os.unlink(so)
    os.rmdir(d)
    return lib


_LOAD = re.compile(r"^\s+(%\S+ = )?(load|store|atomicrmw|cmpxchg)\b")
_PTR = re.compile(r"\* (%[\w.]+|%\"[^\"]+\")(?=,|$)")


def instrument_ir(txt):
    """Insert a call to the scheduler before every memory access of every
    function in the module.  Accesses through a stack slot of the same function
    (alloca) cannot be shared and are skipped."""
    out = []
    infunc = False
    n = 0
    allocas = set()
    for line in txt.splitlines():
        if line.startswith("define "):
            infunc = True
            allocas = set()
            # keep the instrumented copy: a weak definition could be resolved
            # to an uninstrumented one in another module
            line = line.replace("define linkonce_odr ", "define internal ", 1)
        elif line.startswith("}"):
            infunc = False
        elif infunc:
            m = re.match(r"^\s+(%\S+) = alloca ", line)
            if m:
                allocas.add(m.group(1))
            elif _LOAD.match(line):
                m = _PTR.findall(line)
                ptr = m[-1] if m else None
                if ptr not in allocas:
                    out.append("  call void @nbsim_yield()")
                    n += 1
        out.append(line)
    if n:
        out.append("declare void @nbsim_yield()")
    return "\n".join(out) + "\n", n


def install(instrument=True, max_threads=64):
    global _lib
    if _lib is not None:
        return _lib
    os.environ.setdefault("NUMBA_NUM_THREADS", str(max_threads))
    import llvmlite.binding as ll
    from numba.core import codegen
    from numba.np.ufunc import parallel as par
    import numba.core.dispatcher as disp

    lib = _build()
    _lib = lib
    addr = lambda f: ctypes.cast(f, ctypes.c_void_p).value
    for name, f in [
        ("numba_parallel_for", lib.sim_parallel_for),
        ("do_scheduling_signed", lib.sim_do_scheduling),
        ("do_scheduling_unsigned", lib.sim_do_scheduling),
        ("allocate_sched", lib.sim_allocate_sched),
        ("deallocate_sched", lib.sim_deallocate_sched),
        ("get_num_threads", lib.sim_get_num_threads),
        ("set_num_threads", lib.sim_set_num_threads),
        ("get_thread_id", lib.sim_get_thread_id),
        ("set_parallel_chunksize", lib.sim_set_chunksize),
        ("get_parallel_chunksize", lib.sim_get_chunksize),
        ("get_sched_size", lib.sim_get_sched_size),
        ("nbsim_yield", lib.sim_yield),
    ]:
        ll.add_symbol(name, addr(f))
    c_int, c_uint = ctypes.c_int, ctypes.c_uint
    par._launch_threads = lambda: None
    par._is_initialized = True
    par._threading_layer = "nbsim"
    par._set_num_threads = ctypes.CFUNCTYPE(None, c_int)(addr(lib.sim_set_num_threads))
    par._get_num_threads = ctypes.CFUNCTYPE(c_int)(addr(lib.sim_get_num_threads))
    par._get_thread_id = ctypes.CFUNCTYPE(c_int)(addr(lib.sim_get_thread_id))
    par._set_parallel_chunksize = ctypes.CFUNCTYPE(c_uint, c_uint)(addr(lib.sim_set_chunksize))
    par._get_parallel_chunksize = ctypes.CFUNCTYPE(c_uint)(addr(lib.sim_get_chunksize))
    par._get_sched_size = ctypes.CFUNCTYPE(
        c_uint, c_uint, c_uint, ctypes.POINTER(c_int), ctypes.POINTER(c_int)
    )(addr(lib.sim_get_sched_size))

    # no on-disk cache: a check always compiles the current tree
    disp.Dispatcher.enable_caching = lambda self: None

    if instrument:
        orig_opt = codegen.CPUCodeLibrary._optimize_final_module
        orig_link = codegen.CPUCodeLibrary._get_module_for_linking

        def _optimize_final_module(self):
            orig_opt(self)
            # the kernels numba extracts from parallel loops
            if "__numba_parfor_gufunc" not in str(self.name) and not any(
                "__numba_parfor_gufunc" in f.name and not f.is_declaration
                for f in self._final_module.functions
            ):
                return
            pristine = self._final_module.clone()
            txt, n = instrument_ir(str(self._final_module))
            STATS["modules"] += 1
            STATS["sites"] += n
            if not n:
                return
            mod = ll.parse_assembly(txt)
            mod.name = self._final_module.name
            self._nbsim_pristine = pristine
            self._final_module = mod

        def _get_module_for_linking(self):
            p = getattr(self, "_nbsim_pristine", None)
            if p is None:
                return orig_link(self)
            self._ensure_finalized()
            if self._shared_module is None:
                inst, self._final_module = self._final_module, p
                try:
                    orig_link(self)
                finally:
                    self._final_module = inst
            return self._shared_module

        codegen.CPUCodeLibrary._optimize_final_module = _optimize_final_module
        codegen.CPUCodeLibrary._get_module_for_linking = _get_module_for_linking

    lib.nbsim_config.argtypes = [c_int, c_int, ctypes.c_double, c_int, c_int, c_int, ctypes.c_uint64, ctypes.c_uint64]
    lib.nbsim_config.restype = None
    lib.nbsim_replay.argtypes = [ctypes.POINTER(ctypes.c_int64), c_int]
    lib.nbsim_log.argtypes = [ctypes.POINTER(ctypes.c_int64), c_int]
    lib.nbsim_log.restype = c_int
    lib.nbsim_stats.argtypes = [ctypes.POINTER(ctypes.c_uint64)]
    configure(threads=1)
    return lib


STATS = {"modules": 0, "sites": 0}


def configure(threads=1, mode=0, p=0.0, fulldiv=0, perm=0, burst=0, seed=0, max_yields=0):
    _lib.nbsim_config(threads, mode, p, fulldiv, perm, burst, seed & (2**64 - 1), max_yields)


def set_replay(decisions):
    n = len(decisions)
    arr = (ctypes.c_int64 * (3 * max(n, 1)))()
    for i, d in enumerate(decisions):
        arr[3 * i], arr[3 * i + 1], arr[3 * i + 2] = d
    _lib.nbsim_replay(arr, n)


def log():
    n = _lib.nbsim_nlog()
    arr = (ctypes.c_int64 * (3 * max(n, 1)))()
    m = _lib.nbsim_log(arr, n)
    over = m < 0
    m = abs(m)
    return [(arr[3 * i], arr[3 * i + 1], arr[3 * i + 2]) for i in range(m)], over


def stats():
    o = (ctypes.c_uint64 * 7)()
    _lib.nbsim_stats(o)
    return dict(yields=o[0], switches=o[1], regions=o[2], divisions=o[3], hash=o[4], threads=o[5], overflow=o[6])
