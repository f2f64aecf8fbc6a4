"""Compile the kernels of the current tree without executing any of the package's
Python code in the process that runs are forked from.

Children forked from the freshly imported package make warm-up calls with numba's
function cache pointing into a scratch directory and report which signatures got
compiled; the parent then loads exactly these from the scratch cache.  The parent
has executed nothing but imports, so module-level caches, memos and lazily set
globals of the package are as a user's fresh process has them.
"""
import os, sys, shutil, tempfile, time, pickle
import core
VERBOSE = False


def imports():
    import importlib
    import thewalrus
    if not thewalrus.__file__.startswith(core.REPO):
        raise core.HarnessError("wrong thewalrus: " + thewalrus.__file__)
    for m in ("loop_hafnian_batch", "loop_hafnian_batch_gamma", "grouped_click_probabilities", "quantum.distinguishable_squeezers",
              "fock_gradients", "csamples", "samples", "decompositions", "symplectic", "random", "reference", "charpoly"):
        importlib.import_module("thewalrus." + m)
    return thewalrus


def dispatchers():
    import gc
    from numba.core.dispatcher import Dispatcher
    d = [o for o in gc.get_objects() if issubclass(type(o), Dispatcher)]
    d = [o for o in d if getattr(o, "py_func", None) is not None and o.py_func.__code__.co_filename.startswith(core.REPO + "/thewalrus")]
    d.sort(key=lambda o: (o.py_func.__module__, o.py_func.__qualname__, o.py_func.__code__.co_firstlineno))
    return d


def _cache(d, path):
    from numba.core import config
    from numba.core.caching import FunctionCache
    config.CACHE_DIR = path
    d._cache = FunctionCache(d.py_func)


def uncachable(disps):
    """Functions that (transitively) call a recursive function: numba cannot reload those."""
    ids = {id(d): i for i, d in enumerate(disps)}
    calls = []
    for d in disps:
        g = d.py_func.__globals__
        calls.append({ids[id(g[n])] for n in d.py_func.__code__.co_names if n in g and id(g[n]) in ids})
    reach = []
    for i in range(len(disps)):
        seen, todo = set(), list(calls[i])
        while todo:
            j = todo.pop()
            if j not in seen:
                seen.add(j)
                todo += calls[j]
        reach.append(seen)
    rec = {i for i, r in enumerate(reach) if i in r}
    # a generator reloaded from the cache cannot be used by code compiled later
    gen = {i for i, d in enumerate(disps) if d.py_func.__code__.co_flags & 0x20}
    return {i for i, r in enumerate(reach) if i in rec or r & rec} | gen


def _child(disps, path, job, skip):
    os.makedirs(path, exist_ok=True)
    before = [set(d.overloads) for d in disps]
    for i, d in enumerate(disps):
        if i in skip:
            continue
        try:
            _cache(d, path)
        except RuntimeError:
            pass
    job()
    return pickle.dumps([(i, list(k for k in d.overloads if k not in b)) for i, (d, b) in enumerate(zip(disps, before))
                         if any(k not in b for k in d.overloads)])


def _round(disps, jobs, tmp, tag, par, timeout, skip):
    """Run the jobs in at most `par` forked children at a time; returns [(path, sigs)]."""
    import select, struct
    todo = list(enumerate(jobs))
    run = {}
    out = []
    end = time.monotonic() + timeout
    while todo or run:
        while todo and len(run) < par:
            i, job = todo.pop(0)
            path = os.path.join(tmp, "%s%d" % (tag, i))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    core._send(w, ("ok", _child(disps, path, job, skip)))
                except BaseException:
                    import traceback
                    core._send(w, ("exc", traceback.format_exc()))
                os._exit(0)
            os.close(w)
            run[r] = [pid, path, b"", i, time.monotonic()]
        if time.monotonic() > end:
            raise core.HarnessError("compilation took too long")
        rr, _, _ = select.select(list(run), [], [], 5)
        for r in rr:
            d = os.read(r, 1 << 20)
            if d:
                run[r][2] += d
                continue
            pid, path, buf, i, ts = run.pop(r)
            if VERBOSE:
                print('%s%d %.1f s' % (tag, i, time.monotonic() - ts), str(getattr(jobs[i], 'what', ''))[:90], flush=True)
            os.close(r)
            os.waitpid(pid, 0)
            if len(buf) < 8:
                raise core.HarnessError("warm-up %s%d died" % (tag, i))
            m = pickle.loads(buf[8:])
            if m[0] != "ok":
                raise core.HarnessError("warm-up: " + m[1])
            out.append((i, path, pickle.loads(m[1])))
    out.sort()
    return out


def init_numba():
    """Compile something unrelated to the package, so that numba's own lazy set-up happens once."""
    import numba, numpy as np

    @numba.njit(parallel=True)
    def f(A, n):
        s = 0.0 + 0j
        for i in numba.prange(n):
            B = A @ A
            v = np.linalg.eigvals(B + 1j)
            s += np.sum(v) + np.trace(B) + len(range(3))
        x = [1.0]
        x.append(2.0)
        return s + np.prod(np.ones(3)) + np.array(x).sum() + np.linalg.norm(A) + np.zeros_like(A)[0, 0]
    f(np.eye(2), 2)


def build(rounds, par=8, timeout=500):
    """rounds: list of lists of jobs (callables making warm-up calls)."""
    init_numba()
    from numba.core.caching import NullCache
    disps = dispatchers()
    tmp = tempfile.mkdtemp(prefix="vstage-")
    n = miss = 0
    skip = uncachable(disps)
    try:
        for ri, jobs in enumerate(rounds):
            for _, path, sigs in _round(disps, jobs, tmp, "r%d-" % ri, par, timeout, skip):
                for di, sl in sigs:
                    d = disps[di]
                    for s in sl:
                        if s in d.overloads:
                            continue
                        try:
                            if di not in skip:
                                _cache(d, path)
                        except RuntimeError:
                            pass
                        t = time.monotonic()
                        h = sum(d.stats.cache_hits.values())
                        d.compile(s)
                        n += 1
                        miss += sum(d.stats.cache_hits.values()) == h
                        if VERBOSE and time.monotonic() - t > 0.3:
                            print(d.py_func.__name__, s, di in skip, time.monotonic() - t)
                        d._cache = NullCache()
    finally:
        from numba.core import config
        config.CACHE_DIR = "/nonexistent-cache"
        for d in disps:
            d._cache = NullCache()
        shutil.rmtree(tmp)
    return disps, n, miss


def warm_jobs(entries, reps=2):
    """Two rounds of jobs covering the catalogue entries: first the expensive kernels,
    one signature or branch each, then everything."""
    import catalog

    def calls(lst):
        def job():
            import numpy as np
            np.random.seed(1)
            for n, vi in lst:
                for s in range(reps):
                    catalog.call(n, vi, 1000 + s)
        job.what = lst
        return job
    HEAVY = ("loop_hafnian_batch_gamma.loop_hafnian_batch_gamma", "loop_hafnian_batch.loop_hafnian_batch", "hafnian_repeated",
             "loop_hafnian", "hafnian", "hafnian_recursive", "tor", "ltor", "perm", "permanent_repeated", "hermite_multidimensional",
             "grad_hermite_multidimensional", "interferometer", "brs", "ubrs", "lmtl", "mtl",
             "grouped_click_probabilities.grouped_click_probabilities")
    r1 = []
    for n in HEAVY:
        if n not in entries:
            continue
        e = catalog.E[n]
        nv = len(e.variants)
        if n.startswith("loop_hafnian_batch"):
            r1 += [calls([(n, v)]) for v in range(nv)]
        elif n in ("hafnian_repeated", "loop_hafnian", "hafnian"):
            groups = {}
            for v in range(nv):
                x = e.variants[v]
                k = (x[0], x[3] if n == "loop_hafnian" else x[2] if n == "hafnian" else x[3])
                groups.setdefault(k, []).append((n, v))
            r1 += [calls(g) for g in groups.values()]
        else:
            r1.append(calls([(n, v) for v in range(nv)]))
    lst = [(n, v) for n in entries for v in range(len(catalog.E[n].variants))]
    r2 = [calls(lst[i::8]) for i in range(8)]
    return [r1, r2] if r1 else [r2]
