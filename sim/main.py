import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "64", "NUMBA_CACHE_DIR": "/nonexistent-cache",
       "DASK_CONFIG": "/nonexistent"}


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        env = dict(os.environ)
        env.update(ENV)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.setrecursionlimit(5000)
    import importlib, core, json
    a = sys.argv[1:]
    if a[0] == "--replay":
        pid = json.load(open(a[1]))["property"]
        prop = importlib.import_module("props." + pid.lower()).Prop()
        sys.exit(core.run_replay(prop, a[1]))
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = importlib.import_module("props." + pid.lower()).Prop()
    sys.exit(core.run_check(prop, tier, seed))


main()
