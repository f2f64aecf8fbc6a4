"""Sensitivity test: applies one-place changes to a scratch copy of /repo and runs a property's quick check on it.

  tools/mutants.py [name-prefix ...]      (default: all)

Not part of any registered check.
"""
import os, subprocess, sys, tempfile, shutil, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "thewalrus/"
S, R, H = T + "samples.py", T + "random.py", T + "_hafnian.py"
G, C, F = T + "grouped_click_probabilities.py", T + "csamples.py", T + "quantum/fock_tensors.py"
# name, property, file, old text, new text
M = [
 ("c05-chunks", "C05", S, '''        params = [[cov, 1, mean, hbar, cutoff, max_photons]] * samples
''', '''        per = max(1, samples // 8)
        params = [[cov, per, mean, hbar, cutoff, max_photons]] * (samples // per)
'''),
 ("c05-shared", "C05", S, '''    det_pattern = np.zeros(M, dtype=int)
    pure_mu''', '''    det_pattern = _WORK.setdefault(M, np.zeros(M, dtype=int))
    det_pattern[:] = 0
    pure_mu'''),
 ("c05-swallow", "C05", S, '''        results = dask.compute(*compute_list, scheduler="threads")

        return np.vstack(results)

    params = [cov, samples, mean''', '''        def guard(p):
            try:
                return _hafnian_sample(p)
            except MemoryError:
                return np.zeros((1, len(cov) // 2), dtype=int)
        compute_list = [dask.delayed(guard)(p) for p in params]
        results = dask.compute(*compute_list, scheduler="threads")

        return np.vstack(results)

    params = [cov, samples, mean'''),
 ("c05-seed", "C05", S, '''        params = [[cov, 1, mu, hbar, max_photons, fanout, cutoff]] * samples
''', '''        params = [[cov, 1, mu, hbar, max_photons, fanout, cutoff]] * samples
        np.random.seed(samples)
'''),
 ("c05-hbar", "C05", S, "        params = [[cov, 1, mu, hbar, max_photons, fanout, cutoff]] * samples", "        params = [[cov, 1, mu, 2, max_photons, fanout, cutoff]] * samples"),
 ("c06-order", "C06", F, '''            compute_list.append(dask.delayed(density_matrix_element)(mu, cov, i, i, hbar=hbar))

        probs = np.maximum(
            0.0, np.real_if_close(dask.compute(*compute_list, scheduler="processes"))
        ).reshape([cutoff] * num_modes)
''', '''            compute_list.append((mu, cov, i, i, True, 1e-10, hbar))
        from concurrent.futures import ProcessPoolExecutor, as_completed
        with ProcessPoolExecutor() as ex:
            res = [f.result() for f in as_completed([ex.submit(density_matrix_element, *a) for a in compute_list])]
        probs = np.maximum(0.0, np.real_if_close(res)).reshape([cutoff] * num_modes)
'''),
 ("c06-hbar", "C06", F, "dask.delayed(density_matrix_element)(mu, cov, i, i, hbar=hbar)", "dask.delayed(density_matrix_element)(mu, cov, i, i)"),
 ("c06-zero", "C06", F, '''        probs = np.maximum(
            0.0, np.real_if_close(dask.compute(*compute_list, scheduler="processes"))
        ).reshape([cutoff] * num_modes)
''', '''        try:
            res = dask.compute(*compute_list, scheduler="processes")
        except (OSError, RuntimeError):
            res = [density_matrix_element(mu, cov, (0,) * num_modes, (0,) * num_modes, hbar=hbar)] * len(compute_list)
        probs = np.maximum(0.0, np.real_if_close(res)).reshape([cutoff] * num_modes)
'''),
 ("c06-key", "C06", F, "dask.delayed(density_matrix_element)(mu, cov, i, i, hbar=hbar)",
  "dask.delayed(density_matrix_element)(mu, cov, i, i, hbar=hbar, dask_key_name='p%d' % (sum(i) * cutoff + i[0]))"),
 ("c07-order", "C07", S, "    return list(det_pattern[order_inv])", "    return list(det_pattern[order])"),
 ("c07-thr", "C07", S, "DmI[abs(DmI) < 1e-10] = 0.0", "DmI[abs(DmI) < 1e-1] = 0.0"),
 ("c07-gamma", "C07", S, "gamma = pure_alpha.conj() + B @ (heterodyne_alpha - pure_alpha)", "gamma = pure_alpha.conj() + B @ (heterodyne_alpha - pure_alpha.conj())"),
 ("c07-max", "C07", S, "    if det_pattern[order_inv].sum() > max_photons:", "    if det_pattern[order_inv].sum() >= max_photons + (M > 3):"),
 ("c07-noise", "C07", S, "    heterodyne_mu = pure_mu + chol_T_I @ np.random.normal(size=2 * M)", "    heterodyne_mu = pure_mu + chol_T_I.T @ np.random.normal(size=2 * M)"),
 ("c08-order", "C08", S, "    return list(click_pattern[order_inv])", "    return list(click_pattern[order])"),
 ("c08-sum", "C08", S, "het_alpha_sum = het_alpha_fanout.sum(axis=1)", "het_alpha_sum = het_alpha_fanout[:, 0] * np.sqrt(fanout)"),
 ("c08-max", "C08", S, "if sum(click_pattern[order_inv]) > max_photons:", "if sum(det_pattern[order_inv]) > max_photons:"),
 ("c08-k", "C08", S, "            gamma = gamma_fanout[k, :]\n", "            gamma = gamma_fanout[0, :] if mode == 2 else gamma_fanout[k, :]\n"),
 ("c09-hbar", "C09", S, "cov - 0.5 * hbar * np.identity(n), samples)", "cov - np.identity(n), samples)"),
 ("c09-nb", "C09", S, "single_ph_ps = np.abs(G) ** 2", "single_ph_ps = np.abs(G)"),
 ("c09-order", "C09", S, "return np.unravel_index(index, [cutoff] * num_modes)", "return np.unravel_index(index, [cutoff] * num_modes)[::-1]"),
 ("c10-rng", "C10", S, "    samples = np.random.poisson(np.abs(alpha) ** 2)", "    samples = np.random.default_rng().poisson(np.abs(alpha) ** 2)"),
 ("c10-pool", "C10", S, '''    pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
    pure_alpha = mu_to_alpha(pure_mu, hbar=hbar)
    heterodyne''', '''    if len(_NORM) < 2 * M:
        _NORM.extend(np.random.normal(size=64))
    pure_mu = mu + sqrtW @ np.array([_NORM.pop() for _ in range(2 * M)])
    pure_alpha = mu_to_alpha(pure_mu, hbar=hbar)
    heterodyne'''),
 ("c11-haar", "C11", R, "    ph = d / np.abs(d)\n", "    ph = d / np.abs(d) if real else np.ones_like(d)\n"),
 ("c11-hbar", "C11", R, "    Vth = (hbar / 2) * np.diag", "    Vth = np.diag"),
 ("c11-zero", "C11", R, "    nbar = 2 * np.abs(np.random.random(N)) + 1", "    nbar = 2 * np.abs(np.random.random(N)) + 0.999"),
 ("c11-real", "C11", R, "            u1 = random_interferometer(1, real=real)", "            u1 = random_interferometer(1)"),
 ("c11-haar2", "C11", R, "        z = np.random.randn(N, N)", "        z = np.random.rand(N, N) - 0.5"),
 ("c12-tri", "C12", H, "        for j in range(m):\n            mat[i, j] = B[i, j] * np.random.normal()", "        for j in range(i, m):\n            mat[i, j] = B[i, j] * np.random.uniform(-1, 1)"),
 ("c12-n", "C12", H, "for _ in range(num_samples)]).mean()", "for _ in range(num_samples)]).sum() / max(num_samples - 1, 1)"),
 ("c12-stream", "C12", H, "    sqrtA = np.sqrt(A)\n    return np.array([_one_det", "    np.random.seed(num_samples)\n    sqrtA = np.sqrt(A)\n    return np.array([_one_det"),
 ("c13-seed", "C13", G, "    np.random.seed(seed)\n", "    np.random.seed(seed if seed else None)\n" if False else "    if seed != 0:\n        np.random.seed(seed)\n"),
 ("c13-err", "C13", G, "bcc / num_groups) ** 2) ** 0.5", "bcc / num_groups) ** 2) ** 0.5 / num_groups ** 0.5"),
 ("c13-sq", "C13", G, "    phn = np.sinh(input_sq) ** 2", "    phn = np.sinh(np.abs(input_sq)) ** 2 * (1 - 2e-2)"),
 ("c15-cache", "C15", T + "symplectic.py", "def passive_transformation(", "import functools\ndef _memo(f):\n    d = {}\n    @functools.wraps(f)\n    def g(*a, **k):\n        key = (f.__name__, repr([np.shape(x) for x in a]), repr(k))\n        if key not in d:\n            d[key] = f(*a, **k)\n        return d[key]\n    return g\n\n\n@_memo\ndef passive_transformation("),
 ("c15-ret", "C15", T + "quantum/conversions.py", "def Xmat(N):", "_X = {}\n\n\ndef Xmat(N):\n    if N not in _X:\n        _X[N] = _Xmat(N)\n    return _X[N]\n\n\ndef _Xmat(N):"),
 ("c16-buf", "C16", T + "quantum/conversions.py", "def Qmat(cov, hbar=2):", "_Q = {}\n\n\ndef Qmat(cov, hbar=2):\n    b = _Q.setdefault(len(cov), np.zeros((len(cov), len(cov)), dtype=complex))\n    b[:] = _Qmat(cov, hbar)\n    b.flat[0] = b.flat[0] + 0\n    return b.copy()\n\n\ndef _Qmat(cov, hbar=2):"),
 ("c17-swallow", "C17", T + "decompositions.py", "def williamson(V, rtol=1e-05, atol=1e-08):", "def williamson(V, rtol=1e-05, atol=1e-08):\n    try:\n        return _williamson(V, rtol, atol)\n    except (np.linalg.LinAlgError, MemoryError):\n        return np.eye(len(V)), np.eye(len(V))\n\n\ndef _williamson(V, rtol=1e-05, atol=1e-08):"),
 ("c19-err", "C19", T + "decompositions.py", "def takagi(", "def takagi(*a, **k):\n    old = np.seterr(all='ignore')\n    r = _takagi(*a, **k)\n    np.seterr(**old)\n    return r\n\n\ndef _takagi("),
 ("c19-warn", "C19", T + "quantum/fock_tensors.py", "    if parallel:\n        compute_list", "    import warnings\n    warnings.filterwarnings('ignore', category=np.exceptions.ComplexWarning)\n    if parallel:\n        compute_list"),
]
PRE = {"c05-shared": (S, "def decompose_cov(", "_WORK = {}\n\n\ndef decompose_cov("), "c10-pool": (S, "def decompose_cov(", "_NORM = []\n\n\ndef decompose_cov(")}


def main():
    want = sys.argv[1:]
    for name, prop, f, old, new in M:
        if want and not any(name.startswith(w) for w in want):
            continue
        d = tempfile.mkdtemp(prefix="vmut-", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            for ff, o, n in ([PRE[name]] if name in PRE else []) + [(f, old, new)]:
                p = os.path.join(d, ff)
                s = open(p).read()
                if o not in s:
                    print(name, "NOT APPLICABLE", o[:60], flush=True)
                    break
                open(p, "w").write(s.replace(o, n, 1))
            else:
                t = time.time()
                r = subprocess.run([os.path.join(here, "check"), prop, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE="/tmp/vmut-evidence"), capture_output=True, text=True)
                lines = [l for l in r.stdout.splitlines() if l.strip()]
                v = [l for l in lines if "VIOLATION" in l]
                i = next((k for k, l in enumerate(lines) if "class=" in l), None)
                print("%-12s %s %s %.0f s  %s" % (name, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t,
                                                (lines[i - 1] if i else (r.stderr or r.stdout)[-300:] if r.returncode not in (0, 1) else "")[:260]), flush=True)
        finally:
            shutil.rmtree(d)


main()
