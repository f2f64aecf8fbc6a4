"""Driver: seeded runs in forked workers, minimisation, replay, evidence.

A property module (sim/props/cNN.py) defines a class Prop with:
  ID, LEVEL, RULE, GROUPS = {name: workers}
  setup(group, tier)         import and compile what the group needs
  case(group, seed, tier)    -> JSON-serialisable description of one run,
                                a pure function of the seed
  run(group, case)           -> Outcome, a pure function of the case and the code
  shrink(group, case)        -> iterator of simpler cases (optional)
Everything a run does is determined by its case, so a case file is a replay file.
"""
import json, os, sys, time, signal, struct, mmap, hashlib, traceback, random, subprocess, select, pickle, gc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EXIT_STUCK = 77


class HarnessError(Exception):
    pass


class Outcome:
    """Result of one simulated run."""
    __slots__ = ("viol", "vclass", "stats", "key", "trivial", "digest", "case", "note")

    def __init__(self, viol=None, vclass=None, stats=None, key=None, trivial=False, digest=None, case=None, note=None):
        self.viol = viol        # None, or what was violated (text)
        self.vclass = vclass    # class of violation (kept while minimising)
        self.stats = stats or {}
        self.key = key          # identity of the interleaving/history reached
        self.trivial = trivial
        self.digest = digest    # digest of the event log and results (determinism)
        self.case = case        # case with explicit decisions (for replay), if different
        self.note = note


def subseed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "little") >> 1


def digest(*objs):
    h = hashlib.sha256()
    for o in objs:
        h.update(repr(o).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def jdump(o):
    return json.dumps(o, sort_keys=True)


class Budget:
    def __init__(self, seconds):
        self.t0 = time.monotonic()
        self.seconds = seconds

    def left(self):
        return self.seconds - (time.monotonic() - self.t0)


def merge(dst, src):
    for k, v in src.items():
        if k.startswith("max_"):
            dst[k] = max(dst.get(k, 0), v)
        else:
            dst[k] = dst.get(k, 0) + v


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def worker_loop(prop, group, widx, nworkers, seed, tier, seconds, max_runs, fd, shm, slot):
    """Runs in a forked child: seeded runs until the budget is used."""
    agg = {}
    keys = set()
    runs = nontriv = 0
    samples = []
    first = None
    dig = hashlib.sha256()
    b = Budget(seconds)
    i = widx
    while runs < max_runs and b.left() > 0:
        s = subseed(seed, prop.ID, group, i)
        struct.pack_into("<QQ", shm, slot * 16, 1, i)
        try:
            case = prop.case(group, s, tier)
            out = prop.run(group, case)
        except HarnessError:
            raise
        runs += 1
        merge(agg, out.stats)
        if not out.trivial:
            nontriv += 1
            if out.key is not None and len(keys) < 2000000:
                keys.add(hash(out.key) if not isinstance(out.key, int) else out.key)
        dig.update(repr((i, out.digest)).encode())
        if "VERIF_TRACE" in os.environ:
            print("TRACE", group, i, out.digest, out.note, flush=True)
        if len(samples) < 1 and not out.trivial:
            samples.append({"group": group, "index": i, "case": _trim(case), "note": out.note})
        if out.viol is not None:
            first = (i, s, out.case or case, out.viol, out.vclass)
            break
        i += nworkers
    struct.pack_into("<QQ", shm, slot * 16, 0, i)
    _send(fd, ("done", dict(group=group, runs=runs, nontrivial=nontriv, stats=agg, keys=keys, samples=samples,
                            violation=first, digest=dig.hexdigest()[:16], wall=b.seconds - b.left())))


def _trim(o, n=1500):
    s = jdump(o)
    return o if len(s) <= n else s[:n] + "..."


def child_main(prop, group, tier, seed, seconds, max_runs, nworkers, fd, shm, slot0):
    """Group process: set up (import, compile), then fork the workers."""
    try:
        t = time.monotonic()
        prop.setup(group, tier)
        gc.collect()
        gc.freeze()
        setup_s = time.monotonic() - t
        if getattr(prop, "WALL", False):    # the budget includes the set-up
            seconds = max(seconds - setup_s, 8)
        kids = []
        # between them the group's workers get the budget
        for w in range(nworkers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 3
                try:
                    worker_loop(prop, group, w, nworkers, seed, tier, seconds, max_runs, wfd, shm, slot0 + w)
                    code = 0
                except BaseException:
                    try:
                        _send(wfd, ("error", traceback.format_exc()))
                    except Exception:
                        pass
                os._exit(code)
            os.close(wfd)
            kids.append((pid, r, w))
        res = []
        deadline = time.monotonic() + seconds * 1.5 + 90
        bufs = {r: b"" for _, r, _ in kids}
        open_fds = set(bufs)
        while open_fds:
            left = deadline - time.monotonic()
            if left <= 0:
                break
            rr, _, _ = select.select(list(open_fds), [], [], min(left, 5))
            for r in rr:
                d = os.read(r, 1 << 20)
                if not d:
                    open_fds.discard(r)
                else:
                    bufs[r] += d
        for pid, r, w in kids:
            if r in open_fds:
                os.kill(pid, signal.SIGKILL)
            _, status = os.waitpid(pid, 0)
            buf = bufs[r]
            msg = None
            if len(buf) >= 8:
                n = struct.unpack("<Q", buf[:8])[0]
                if len(buf) >= 8 + n:
                    msg = pickle.loads(buf[8:8 + n])
            idx = struct.unpack_from("<QQ", shm, (slot0 + w) * 16)
            if msg is None:
                res.append(("crash", dict(group=group, index=idx[1], status=status, timeout=r in open_fds)))
            else:
                res.append(msg)
        _send(fd, ("group", group, setup_s, res))
        os._exit(0)
    except BaseException:
        try:
            _send(fd, ("setup-error", group, traceback.format_exc()))
        except Exception:
            pass
        os._exit(4)


def read_all(fd, pid, timeout):
    buf = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None, -1
        rr, _, _ = select.select([fd], [], [], min(left, 5))
        if rr:
            d = os.read(fd, 1 << 20)
            if not d:
                break
            buf += d
    _, status = os.waitpid(pid, 0)
    if len(buf) < 8:
        return None, status
    n = struct.unpack("<Q", buf[:8])[0]
    if len(buf) < 8 + n:
        return None, status
    return pickle.loads(buf[8:8 + n]), status


def isolated(fn, timeout):
    """Run fn() in a forked child; returns ('ok', value) | ('exc', text) | ('signal', n) | ('stuck',) | ('timeout',)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                v = fn()
                _send(w, ("ok", v))
            except BaseException:
                _send(w, ("exc", traceback.format_exc()))
        finally:
            os._exit(0)
    os.close(w)
    msg, status = read_all(r, pid, timeout)
    os.close(r)
    if msg is not None:
        return msg
    if status == -1:
        return ("timeout",)
    if os.WIFSIGNALED(status):
        return ("signal", os.WTERMSIG(status))
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == EXIT_STUCK:
        return ("stuck",)
    return ("exc", "child exited with status %r" % status)


def judge(prop, group, case, timeout=120):
    """Run one case in a child, turning crashes and non-progress into violations."""
    def f():
        o = prop.run(group, case)
        return (o.viol, o.vclass, o.case, o.digest)
    m = isolated(f, timeout)
    if m[0] == "ok":
        return m[1]
    if m[0] == "signal":
        return ("process died with signal %d inside the call" % m[1], "signal", None, None)
    if m[0] == "stuck":
        return ("no progress within the step bound", "stuck", None, None)
    if m[0] == "timeout":
        return ("no result within %d s" % timeout, "timeout", None, None)
    raise HarnessError(m[1])


def minimise(prop, group, case, viol, vclass, seconds):
    """Greedy shrinking: keep a simpler case while the same class of violation persists."""
    b = Budget(seconds)
    best, bestv = case, viol
    steps = tried = 0
    progress = True
    while progress and b.left() > 0:
        progress = False
        for c in prop.shrink(group, best):
            if b.left() <= 0:
                break
            tried += 1
            try:
                v, vc, c2, _ = judge(prop, group, c, timeout=max(5, min(60, b.left() + 5)))
            except HarnessError:
                continue
            if v is not None and vc == vclass:
                best, bestv = c, v
                steps += 1
                progress = True
                break
    return best, bestv, steps, tried


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def write_replay(prop, group, case, viol, vclass, tier, seed, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop.ID, digest(jdump(case), vclass)))
    with open(p, "w") as f:
        json.dump(dict(property=prop.ID, group=group, violation=viol, vclass=vclass, tier=tier, seed=seed,
                       case=case, **extra), f, indent=1, sort_keys=True)
    return p


def fresh_replay(path, timeout=300):
    """Replay a file in a fresh interpreter. True if it reproduces."""
    r = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "main.py"), "--replay", path, "--raw"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode == 1, r.stdout.decode(errors="replace")


def run_replay(prop, path, raw=False):
    o = json.load(open(path))
    os.environ["VERIF_NO_PREFILL"] = "1"
    prop.setup(o["group"], o.get("tier", "quick"))
    v, vc, _, dg = judge(prop, o["group"], o["case"], timeout=240)
    if v is None:
        print("replay %s: no violation" % path)
        return 0
    print("replay %s: %s [%s]" % (path, v, vc))
    print("VIOLATION property=%s replay=%s" % (prop.ID, path))
    return 1


def run_check(prop, tier, seed):
    t0 = time.monotonic()
    budget = prop.BUDGET[tier]
    max_runs = int(os.environ.get("VERIF_RUNS", 0)) or getattr(prop, "MAX_RUNS", {}).get(tier, 10**9)    # runs per worker
    if "VERIF_RUNS" in os.environ:
        budget = 1500       # the number of runs decides, not the time
    groups = prop.groups(tier) if hasattr(prop, "groups") else prop.GROUPS
    print("%s tier=%s seed=%d groups=%s" % (prop.ID, tier, seed, groups), flush=True)
    nslots = sum(groups.values())
    shm = mmap.mmap(-1, 16 * max(nslots, 1))
    procs = []
    slot = 0
    for g, nw in groups.items():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            child_main(prop, g, tier, seed, budget, max_runs, nw, w, shm, slot)
        os.close(w)
        procs.append((g, pid, r))
        slot += nw
    agg, keys, samples = {}, set(), []
    runs = nontriv = 0
    viols = []
    errors = []
    per_group = {}
    digests = []
    for g, pid, r in procs:
        msg, status = read_all(r, pid, budget * 1.5 + 700)
        os.close(r)
        if msg is None:
            errors.append("group %s: no answer (status %r)" % (g, status))
            continue
        if msg[0] == "setup-error":
            errors.append("group %s setup: %s" % (g, msg[2]))
            continue
        _, _, setup_s, res = msg
        per_group[g] = dict(setup_s=round(setup_s, 1), runs=0, nontrivial=0)
        for m in res:
            if m[0] == "error":
                errors.append("group %s: %s" % (g, m[1]))
            elif m[0] == "crash":
                viols.append((g, m[1]["index"], None, m[1]))
            else:
                d = m[1]
                runs += d["runs"]
                nontriv += d["nontrivial"]
                per_group[g]["runs"] += d["runs"]
                per_group[g]["nontrivial"] += d["nontrivial"]
                merge(agg, d["stats"])
                keys |= {(g, k) for k in d["keys"]}
                samples += d["samples"]
                digests.append((g, d["digest"]))
                if d["violation"]:
                    viols.append((g, d["violation"][0], d["violation"], None))
    nviol = 0
    rc = 0
    reported = []
    known = [k for k in load_known() if k["property"] == prop.ID and k.get("status") == "known"]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]), flush=True)
    done_classes = set()
    viols.sort(key=lambda v: (v[0], v[1]))
    for g, idx, v, crash in viols:
        try:
            res = isolated(lambda: confirm(prop, g, idx, v, crash, tier, seed), 420)
        except HarnessError as e:
            errors.append(str(e))
            continue
        if res[0] != "ok":
            errors.append("confirming %s/%d: %s" % (g, idx, res))
            continue
        res = res[1]
        if "error" in res:
            errors.append(res["error"])
            continue
        if (g, res["vclass"]) in done_classes:
            continue
        done_classes.add((g, res["vclass"]))
        nviol += 1
        rc = 1
        print("%s\n  group=%s run=%d class=%s minimised in %d of %d attempts" % (res["viol"], g, idx, res["vclass"], res["steps"], res["tried"]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, res["path"]), flush=True)
        reported.append(dict(group=g, run=idx, violation=res["viol"], replay=res["path"]))
        if nviol >= (1 if tier == "quick" else 3) or time.monotonic() - t0 > 500:
            break
    wall = time.monotonic() - t0
    cov = dict(evaluations=runs, distinct_nontrivial=len(keys), rule=prop.RULE, samples=samples[:6] or ["none"],
               nontrivial_runs=nontriv, per_group=per_group,
               runs_per_hour=int(runs / max(wall, 1e-9) * 3600), counters={k: agg[k] for k in sorted(agg)},
               real_components=getattr(prop, "REAL", ""), simulated_components=getattr(prop, "SIMULATED", ""),
               digests=sorted(digests))
    ev = dict(property=prop.ID, tier=tier, seed=seed, level=prop.LEVEL, coverage=cov,
              assumptions=getattr(prop, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=nviol)
    if reported:
        cov["violations_reported"] = reported
    if errors:
        cov["harness_errors"] = errors
    zero = [probe for probe in getattr(prop, "PROBES", []) if not agg.get(probe)]
    if zero:
        cov["probes_at_zero"] = zero
    out = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d runs, %d distinct non-trivial, %.1f s; %s" % (prop.ID, runs, len(keys), wall,
          ", ".join("%s=%s" % (k, agg[k]) for k in sorted(agg))), flush=True)
    for e in errors:
        print("HARNESS-ERROR: " + e, flush=True)
    if rc:
        return 1
    if errors:
        return 2
    if runs == 0 or len(keys) == 0:
        print("HARNESS-ERROR: nothing was run")
        return 2
    # fault kinds and rare conditions the property relies on should have fired
    for probe in zero:
        print("PROBE-AT-ZERO: %s" % probe)
    return 0


def confirm(prop, g, idx, v, crash, tier, seed):
    """Reproduce, minimise and re-verify one failing run (in a forked child)."""
    os.environ["VERIF_NO_PREFILL"] = "1"
    prop.setup(g, tier)
    s = subseed(seed, prop.ID, g, idx)
    case0 = prop.case(g, s, tier)
    cands = [case0] if v is None else [v[2], case0]
    got = None
    for c in cands:
        vv, vc, c2, _ = judge(prop, g, c)
        if vv is not None:
            got = (c2 or c, c, vv, vc)
            break
    if got is None:
        what = crash if v is None else v[3]
        return dict(error="run %s/%d failed once (%s) and did not reproduce" % (g, idx, what))
    c, corig, vv, vc = got
    if vc == "timeout":
        return dict(error="run %s/%d: wall-clock timeout" % (g, idx))
    if c is not corig:
        v2, vc2, _, _ = judge(prop, g, c)
        if v2 is None or vc2 != vc:
            c = corig
    steps = tried = 0
    best, bv = c, vv
    if hasattr(prop, "shrink"):
        best, bv, steps, tried = minimise(prop, g, c, vv, vc, 40 if tier == "quick" else 120)
    extra = dict(run=idx, run_seed=s)
    for cand, cv in ((best, bv), (c, vv), (corig, vv)):
        p = write_replay(prop, g, cand, cv, vc, tier, seed, extra)
        ok, txt = fresh_replay(p)
        if ok:
            return dict(viol=cv, vclass=vc, path=p, steps=steps, tried=tried)
        os.unlink(p)
    return dict(error="violation %s did not replay in a fresh process: %s" % (vv, txt[-800:]))
