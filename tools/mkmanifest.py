"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import mkprops
K = "seeded simulation of the kernels' threads (work division, order, preemption at memory accesses) against a definition-based model"
CL = {
 "C01": (K, "Exploration: every run executes the compiled kernel of the current tree under simulated threads and compares with the sum over matchings. Assumes sequentially consistent memory and that LAPACK calls are atomic."),
 "C02": (K, "As C01, for the batched kernels, against loop hafnians by definition."),
 "C03": (K, "As C01, against signed sums of permanents and enumeration of Fock outputs of a lossless dilation."),
 "C04": (K, "As C01, against the subset sum and vacuum projections of the Gaussian state."),
}
EXTRA = os.path.join(here, "tools", "claims.json")
if os.path.exists(EXTRA):
    CL.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
PURE = "a pure function of its input on one thread: no schedule, clock, I/O, randomness, fault or interleaving for a simulator to decide (input generation alone would not be this technique)"
NOTYET = "check not built yet"
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks in /repo are needed: all seams are numba's threading-layer symbols, dask's pool and queue, numpy.random and sys.monitoring (source-line events)", source_commits=[]),
         checks=[dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique="deterministic simulation: " + t, level="exploration", level_note=n) for p, (t, n) in sorted(CL.items())],
         not_applicable=[dict(property=q["id"], reason=PURE if q["id"] in mkprops.NA else NOTYET) for q in mkprops.P if q["id"] not in CL])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in m["checks"]], len(m["not_applicable"]))
