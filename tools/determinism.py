"""One seed is one execution: runs each property's first runs twice (with different hash seeds and machine load) and compares the digests.

  tools/determinism.py [C01 ...]
"""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 20)]
for p in ids:
    res = []
    d = tempfile.mkdtemp(prefix="vdet-")
    ps = []
    for j, hs in enumerate(("0", "77")):
        e = os.path.join(d, str(j))
        ps.append(subprocess.Popen([os.path.join(here, "check"), p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, VERIF_RUNS="6", VERIF_HASHSEED=hs, VERIF_EVIDENCE=e)))
        if j == 0:
            ps[0].wait()        # the second alone on a different hash seed
    for j, q in enumerate(ps):
        out = q.communicate()[0]
        f = os.path.join(d, str(j), p + ".json")
        res.append((json.load(open(f))["coverage"]["digests"] if os.path.exists(f) else out[-300:], q.returncode))
    ok = res[0] == res[1]
    print(p, "same" if ok else "DIFFERENT", res[0][1], len(res[0][0]), "" if ok else [(a, b) for a, b in zip(res[0][0], res[1][0]) if a != b], flush=True)
