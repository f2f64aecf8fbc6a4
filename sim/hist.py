"""Histories of calls to the public API, run in forks of a pristine process (C10, C14-C17, C19).

Groups: "py" runs the package's kernels as interpreted Python (numba's own
NUMBA_DISABLE_JIT switch), which puts every line of every kernel under the
scheduler and the fault injector; "jit" runs the compiled kernels.
"""
import os, sys, gc, copy, random, pickle
import core
from core import Outcome, digest, HarnessError
from forked import ForkedProp

PY_FAMS = ("light", "light2", "haf", "batch", "batchg", "tor", "perm", "charpoly", "mont", "grad1", "grad3", "grad4")
JIT_QUICK = ("light", "light2", "herm", "herm2", "charpoly", "gcp", "grad2")
NOT_PY = ("reference.mtl",)

EXC = ("KeyboardInterrupt", "MemoryError", "LinAlgError", "FloatingPointError", "RuntimeError")


def exc(name):
    import numpy as np
    return {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "LinAlgError": np.linalg.LinAlgError,
            "FloatingPointError": FloatingPointError, "RuntimeError": RuntimeError}[name]


class HistProp(ForkedProp):
    LEVEL = "exploration"
    GROUPS = {"py": 6, "jit": 2}
    BUDGET = {"quick": 34, "thorough": 500}
    WALL = True
    REAL = ("the whole package of the current tree: its Python code in both groups, the machine code numba generates in group jit, "
            "the same kernels interpreted in group py; numpy, scipy")
    SIMULATED = "exceptions injected at source lines and calls of the package; numba's threading layer (one simulated worker)"
    ASSUMPTIONS = ["exceptions strike at line and call boundaries of the package's Python code (kernels included in group py), "
                   "not inside numpy or compiled code", "no exception is injected inside finally/except blocks or context managers' exit"]

    def fams(self, group, tier):
        if group == "py":
            return PY_FAMS
        return JIT_QUICK if tier == "quick" else None

    def setup(self, group, tier):
        self.group, self.tier = group, tier
        os.environ["NUMBA_NUM_THREADS"] = "64"
        if group == "py":
            os.environ["NUMBA_DISABLE_JIT"] = "1"
        import pysim
        pysim.install(core.REPO + "/thewalrus")
        self.pysim = pysim
        import numpy, scipy.linalg, scipy.special, scipy.stats, scipy.sparse, numba, dask
        if group == "jit":
            import nbsim
            nbsim.install(instrument=False)
        import warnings
        warnings.simplefilter("ignore")
        self.before_import()
        import stage
        stage.imports()
        self.after_import()
        import catalog
        self.cat = catalog
        f = self.fams(group, tier)
        self.names = [n for n, e in catalog.E.items() if (f is None or e.fam in f) and not (group == "py" and n in NOT_PY)]
        if group == "py":
            self.names = [n for n in self.names if catalog.E[n].fam != "gcp"]
        self.names = [n for n in self.names if self.wanted(catalog.E[n])]
        self.bykind = {}
        for n in self.names:
            self.bykind.setdefault(self.kind(n), []).append(n)
        if group == "jit":
            stage.build(stage.warm_jobs(self.names), par=4 if tier == "quick" else 8)
        self.hook = pysim.Hook(core.REPO + "/thewalrus")
        self.memo = {}
        gc.collect()
        gc.freeze()
        gc.disable()
        if self.ORACLE and not os.environ.get("VERIF_NO_PREFILL"):
            self.prefill(6 if group == "py" else 3)

    def before_import(self):
        pass

    def after_import(self):
        pass

    def wanted(self, e):
        return True

    def kind(self, name):
        k = self.cat.E[name].kind
        if k == "nrng":
            return "rng" if self.group == "py" else "nrng"
        return k

    # -- calls -----------------------------------------------------------
    def pick(self, rng, names):
        n = rng.choice(names)
        return [n, rng.randrange(len(self.cat.E[n].variants))]

    def seed_rng(self, s):
        import numpy as np
        np.random.seed(s & 0x7FFFFFFF)

    # A call is [name, variant, seed] or [name, variant, seed, relation]; the relation makes
    # a near relative of the call: one option, scalar or array exchanged or nudged.
    def args(self, c):
        a = self.cat.E[c[0]].args(c[1], c[2])
        return relative(a, c[3], self.cat.E[c[0]], self.group) if len(c) > 3 else a

    def vary(self, rng, c, p, seeds=()):
        """With probability p a near relative of the call c."""
        if rng.random() < p:
            rel = self.relation(rng, c[0], list(seeds) or [c[2], c[2] ^ 1])
            if rel.startswith("mix") or self.cat.E[c[0]].kind not in ("rng", "nrng"):
                return c[:3] + [rel]
        return c

    def relation(self, rng, name, seeds):
        x = rng.random()
        if x < 0.62:
            return "mix:%d:%d:%d" % (rng.randrange(len(self.cat.E[name].variants)), rng.choice(seeds), rng.randrange(1000))
        if x < 0.82:
            return "nudge:%d:%d" % (rng.randrange(1000), rng.choice([3, 5, 6]))
        if x < 0.93:
            return "turn:%d" % rng.randrange(1000)
        return "conv:%d" % rng.randrange(1000)

    def raw(self, c, args=None):
        """('ok', raw, normalised) or ('exc', type, message)"""
        a, kw = args if args is not None else self.args(c)
        f = self.cat.E[c[0]].fn()
        try:
            r = f(*a, **kw)
            if hasattr(r, "__next__"):
                r = list(r)
            return ("ok", r, self.cat.norm(r))
        except Exception as x:
            return ("exc", type(x).__name__, str(x)[:200])

    def norm_result(self, r):
        return ("ok", r[2]) if r[0] == "ok" else ("exc", r[1], r[2])

    # Most calls of a history draw their arguments' seed from a small pool, so that
    # histories repeat arguments and the oracle's result can be kept.
    POOL = {"quick": 3, "thorough": 24}
    ORACLE = True

    def pool_seed(self, j):
        return core.subseed(os.environ.get("VERIF_SEED", "1"), "pool", j) & ((1 << 40) - 1)

    def some_seed(self, rng):
        if rng.random() < 0.12:
            return rng.getrandbits(40)
        return self.pool_seed(rng.randrange(self.POOL[self.tier]))

    def rs_of(self, c):
        return (c[2] * 31 + c[1] * 7 + 5) & 0x7FFFFFFF

    def prefill(self, nproc):
        """Oracle results of the pool, computed by nproc children (each call in its own fork)."""
        import select
        todo = [[n, v, self.pool_seed(j)] for n in self.names for v in range(len(self.cat.E[n].variants)) for j in range(self.POOL["quick"])]
        kids = []
        for k in range(nproc):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    core._send(w, ("ok", [(tuple(c), self._alone(c)) for c in todo[k::nproc]]))
                except BaseException:
                    import traceback
                    core._send(w, ("exc", traceback.format_exc()))
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            m, status = core.read_all(r, pid, 200)
            os.close(r)
            if m is None or m[0] != "ok":
                raise HarnessError("oracle: %s" % (m,))
            self.memo.update(m[1])

    def alone(self, c):
        k = tuple(c)
        if k not in self.memo:
            if len(self.memo) > 60000:
                self.memo.clear()
            self.memo[k] = self._alone(c)
        return self.memo[k]

    def _alone(self, c):
        """Result of the call in a fresh fork; also the number of fault points it passes."""
        def f():
            self.seed_rng(self.rs_of(c))
            a = self.args(c)
            self.hook.arm(None, fault_at=(1 << 60, None))
            r = self.raw(c, a)
            self.hook.disarm()
            return self.norm_result(r), self.hook.count
        m = core.isolated(f, 60)
        if m[0] != "ok":
            raise HarnessError("call %s alone: %s" % (c, m))
        return m[1]

    def agree(self, got, want):
        if got[0] != want[0]:
            return False
        if got[0] == "exc":
            return got[1] == want[1]
        return self.cat.same(got[1], want[1])

    def text(self, r):
        return self.cat.show(r[1]) if r[0] == "ok" else "%s: %s" % (r[1], r[2])

    def name(self, c):
        return "%s[%s](seed %d%s)" % (c[0], self.cat.E[c[0]].variants[c[1] % len(self.cat.E[c[0]].variants)], c[2],
                                     ", " + c[3] if len(c) > 3 else "")

    def faulted(self, c, k, exc_name, args=None):
        """Make the call with an exception striking at the k-th fault point. -> (result or None, fired)"""
        a = args if args is not None else self.args(c)
        E = exc(exc_name)
        self.hook.arm(None, fault_at=(k, lambda: E("injected")))
        try:
            r = self.raw(c, a)
        except BaseException as x:
            if self.hook.fired is None:
                raise
            r = ("exc", type(x).__name__, str(x))
        finally:
            self.hook.disarm()
        return r, self.hook.fired


SCALAR = (bool, int, float, complex, str, type(None))


def relative(a, rel, entry, group):
    """Arguments that differ from a in one place."""
    import numpy as np
    pos, kw = list(a[0]), dict(a[1])
    get = lambda k: pos[k] if isinstance(k, int) else kw[k]
    keys = list(range(len(pos))) + sorted(kw)

    def put(k, v):
        if isinstance(k, int):
            pos[k] = v
        else:
            kw[k] = v

    def flat(x):
        return isinstance(x, (list, tuple)) and len(x) > 0 and all(isinstance(i, (int, float, complex, np.generic)) and not isinstance(i, bool) for i in x)

    f = rel.split(":")
    if f[0] == "mix":
        b = entry.args(int(f[1]), int(f[2]))
        bp, bk = list(b[0]), dict(b[1])
        cand = []
        for k in list(range(min(len(pos), len(bp)))) + sorted(set(kw) | set(bk)):
            here, there = isinstance(k, int) or k in kw, isinstance(k, int) or k in bk
            if here and there:
                x, y = get(k), bp[k] if isinstance(k, int) else bk[k]
                if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                    if x.shape == y.shape and x.dtype == y.dtype and x.flags.c_contiguous == y.flags.c_contiguous and x.flags.f_contiguous == y.flags.f_contiguous \
                            and not np.array_equal(x, y):
                        cand.append((k, y))
                elif isinstance(x, SCALAR) and isinstance(y, SCALAR):
                    if (type(x) is type(y) or group == "py") and repr(x) != repr(y):
                        cand.append((k, y))
                elif flat(x) and flat(y) and type(x) is type(y) and len(x) == len(y) and repr(x) != repr(y):
                    cand.append((k, y))
            elif group == "py" and here and isinstance(kw[k], SCALAR):
                cand.append((k, KeyError))
            elif group == "py" and there and isinstance(bk[k], SCALAR):
                cand.append((k, bk[k]))
        if cand:
            k, y = cand[int(f[3]) % len(cand)]
            if y is KeyError:
                del kw[k]
            else:
                put(k, y)
    elif f[0] == "nudge":
        cand = [k for k in keys if isinstance(get(k), float) and not isinstance(get(k), bool)
                or isinstance(get(k), np.ndarray) and get(k).dtype.kind in "fc" and get(k).size]
        if cand:
            i, e = int(f[1]), 10.0 ** -int(f[2])
            k = cand[i % len(cand)]
            x = get(k)
            if isinstance(x, float) or (i // 7) % 2:
                put(k, x * (1 + e) if isinstance(x, float) else (x * (1 + e)).astype(x.dtype, copy=False))
            else:               # one element of the diagonal
                y = x.copy(order="K")
                j = (i // 14) % min(y.shape)
                y[(j,) * y.ndim] += e
                put(k, y)
    elif f[0] == "turn":        # the same entries in another order
        cand = [k for k in keys if flat(get(k)) and len(get(k)) > 1
                or isinstance(get(k), np.ndarray) and (get(k).ndim == 1 and get(k).size > 1 or get(k).ndim == 2 and get(k).shape[0] == get(k).shape[1] > 1)]
        if cand:
            k = cand[int(f[1]) % len(cand)]
            x = get(k)
            if isinstance(x, (list, tuple)):
                put(k, x[1:] + x[:1])
            elif x.ndim == 1:
                put(k, np.roll(x, -1))
            else:
                y = x.copy(order="K")
                y[...] = np.roll(x, -1, axis=(0, 1))
                put(k, y)
    elif f[0] == "conv" and group == "py":
        cand = [k for k in keys if flat(get(k)) or isinstance(get(k), np.ndarray) and get(k).ndim == 1 and get(k).size
                or isinstance(get(k), int) and not isinstance(get(k), bool)]
        if cand:
            i = int(f[1])
            k = cand[i % len(cand)]
            x = get(k)
            i //= len(cand)
            if isinstance(x, int):
                put(k, np.int64(x))
            elif isinstance(x, np.ndarray):
                put(k, [x.tolist(), tuple(x.tolist())][i % 2])
            else:
                put(k, [np.array(x), tuple(x) if isinstance(x, list) else list(x)][i % 2])
    return tuple(pos), kw


def leaves(o, path="", depth=0):
    """Mutable leaves of a value: (path, object)."""
    import numpy as np
    if isinstance(o, np.ndarray):
        yield path, o
    elif isinstance(o, list):
        yield path, o
        for i, x in enumerate(o):
            yield from leaves(x, path + "[%d]" % i, depth + 1)
    elif isinstance(o, tuple):
        for i, x in enumerate(o):
            yield from leaves(x, path + "[%d]" % i, depth + 1)
    elif isinstance(o, dict):
        yield path, o
        for k, x in o.items():
            yield from leaves(x, path + "[%r]" % (k,), depth + 1)
    elif isinstance(o, set):
        yield path, o
    elif hasattr(o, "toarray") and hasattr(o, "data"):
        for f in ("data", "indices", "indptr", "row", "col", "coords"):
            v = getattr(o, f, None)
            if isinstance(v, np.ndarray):
                yield path + "." + f, v


def root(a):
    import numpy as np
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def snap(o):
    """Bit-for-bit image of every mutable object reachable from o."""
    import numpy as np
    out = []
    for p, x in leaves(o):
        if isinstance(x, np.ndarray):
            b = root(x)
            out.append((p, x.shape, x.strides, str(x.dtype), x.flags.writeable, x.tobytes() if x.dtype != object else repr(x.tolist()),
                        b.tobytes() if b.dtype != object else ""))
        elif isinstance(x, list):
            out.append((p, "list", [repr(i) if not isinstance(i, (list, dict, np.ndarray)) else type(i).__name__ for i in x]))
        elif isinstance(x, dict):
            out.append((p, "dict", sorted(map(repr, x))))
        else:
            out.append((p, "set", sorted(map(repr, x))))
    return out


def snapdiff(a, b):
    if len(a) != len(b):
        return "structure changed"
    for x, y in zip(a, b):
        if x != y:
            return x[0] or "value"
    return None


def shrink_list(case, key):
    L = case[key]
    n = len(L)
    seen = set()
    for step in (n // 2, n // 4, 1):
        if step >= 1 and step not in seen:
            seen.add(step)
            for a in range(0, n, step):
                yield dict(case, **{key: L[:a] + L[a + step:]})
