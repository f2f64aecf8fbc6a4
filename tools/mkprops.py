"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Hafnian and loop hafnian are exact on every thread schedule",
  "For every symmetric matrix and every pattern of row-and-column repetitions, the hafnian or loop hafnian returned by the default (multi-threaded, exact) routines equals the sum over perfect matchings (with loops where requested, taken from the diagonal or from a given loop vector) of the repeated matrix, to rounding accuracy. This holds for every number of worker threads, every division of the work among them and every order or interleaving in which they run.",
  ["schedules", "inputs", "configurations"],
  "all thread counts, work divisions, execution orders and memory-access interleavings of the parallel loops x all symmetric matrices (real, complex, integer; dense or structured), repetition patterns, loop vectors and the interpolation switch",
  "The tests run the kernels on whatever threads the machine offers (two in the baseline), so they see a handful of uncontrolled interleavings; a lost update, a shared scratch buffer or a chunk-boundary error shows only for particular thread counts and interleavings.",
  ["thewalrus/_hafnian.py"],
  [("private per-iteration scratch plus a sum reduction over a prange loop", "thewalrus/_hafnian.py:_calc_hafnian,_calc_loop_hafnian"),
   ("edge matching of repeated indices", "thewalrus/_hafnian.py:matched_reps,find_kept_edges,f_from_matrix,f_loop,f_loop_odd")],
  ["thewalrus.hafnian", "thewalrus.hafnian_repeated", "thewalrus.loop_hafnian"])
p("C02", "Batched loop hafnians are exact on every thread schedule",
  "For every symmetric matrix, loop vector (or collection of loop vectors), pattern of fixed outcomes and cutoff, the batched routines return, for each outcome 0..cutoff of the last mode, the loop hafnian of the correspondingly repeated matrix, to rounding accuracy. This holds for every number of worker threads, every division of the work among them and every order or interleaving in which they run.",
  ["schedules", "inputs", "configurations"],
  "all thread counts, work divisions, orders and interleavings x matrices, loop vectors, even/odd totals of fixed outcomes, zero outcomes, cutoffs, with and without interpolation",
  "Tests compare a few fixed sizes on two real threads; the array-valued reductions in these loops are only wrong (lost or duplicated contributions) under particular schedules and thread counts.",
  ["thewalrus/loop_hafnian_batch.py", "thewalrus/loop_hafnian_batch_gamma.py"],
  [("array reductions over prange loops, one private accumulator per thread", "thewalrus/loop_hafnian_batch.py:_calc_loop_hafnian_batch_even,_calc_loop_hafnian_batch_odd"),
   ("same, with a batch of loop vectors", "thewalrus/loop_hafnian_batch_gamma.py:_calc_loop_hafnian_batch_gamma_even,_calc_loop_hafnian_batch_gamma_odd")],
  ["thewalrus.loop_hafnian_batch", "thewalrus.loop_hafnian_batch_gamma"])
p("C03", "Bristolians and threshold statistics of Fock inputs hold on every schedule",
  "The Bristolian and unitary Bristolian of every pair of compatible matrices equal their defining signed sums of permanents over subsets, and the probability of a click pattern for Fock-state inputs through a lossless or lossy interferometer equals the total probability of all photon-number outcomes that produce that pattern, to rounding accuracy. This holds for every number of worker threads, every division of the work among them and every order or interleaving in which they run.",
  ["schedules", "inputs", "configurations"],
  "all thread counts, work divisions, orders and interleavings x unitary and lossy transmission matrices, input photon numbers, click patterns",
  "Tests use a few fixed circuits on two uncontrolled threads.",
  ["thewalrus/_permanent.py"],
  [("scalar reductions over prange loops", "thewalrus/_permanent.py:brs,ubrs"),
   ("choice between the lossless and lossy formula", "thewalrus/_permanent.py:fock_threshold_prob")],
  ["thewalrus.brs", "thewalrus.ubrs", "thewalrus._permanent.fock_threshold_prob", "thewalrus._permanent.fock_prob"])
p("C04", "Displaced threshold-detection probabilities are exact on every schedule",
  "The non-recursive loop torontonian equals its defining signed sum over subsets of modes, and the click-pattern probabilities of every displaced or undisplaced Gaussian state are the true ones: they are non-negative, sum to one over all patterns and equal the vacuum/non-vacuum projections of the state. This holds for every number of worker threads, every division of the work among them and every order or interleaving in which they run.",
  ["schedules", "inputs", "configurations"],
  "all thread counts, work divisions, orders and interleavings x Gaussian states (pure, mixed, displaced or not, any hbar), click patterns",
  "Tests sample a few states on two uncontrolled threads; a schedule- or thread-count-dependent sum is invisible to them.",
  ["thewalrus/_torontonian.py"],
  [("scalar reduction over a prange loop with per-iteration temporaries", "thewalrus/_torontonian.py:numba_ltor"),
   ("displaced branch of the click probability", "thewalrus/_torontonian.py:threshold_detection_prob")],
  ["thewalrus.ltor(recursive=False)", "thewalrus.threshold_detection_prob"])
p("C05", "Parallel samplers deliver exactly the requested valid samples or an error",
  "For every worker count, task completion order and interleaving, parallel photon-number and click sampling returns exactly the requested number of rows, each a valid independent sample of the same distribution as the sequential sampler, respecting the photon-number, click and detector limits. If a task fails the call raises that failure and never returns a short, partial or padded result; the caller's arguments are never modified.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "all dask worker counts, task orders, line-level interleavings and task-failure points x sampler kind (state, graph; photon number, click), sample counts, states, displacement, cutoffs and photon limits",
  "Tests draw a few samples with the real thread pool and compare loose statistics; they never control the order, preempt a task mid-sample or fail one.",
  ["thewalrus/samples.py"],
  [("one delayed task per sample, gathered with vstack", "thewalrus/samples.py:hafnian_sample_state,torontonian_sample_state"),
   ("rejection loop per sample", "thewalrus/samples.py:_hafnian_sample,_torontonian_sample")],
  ["thewalrus.samples.hafnian_sample_state", "thewalrus.samples.hafnian_sample_graph", "thewalrus.samples.torontonian_sample_state", "thewalrus.samples.torontonian_sample_graph"],
  [("global numpy random stream", "shared by all sampling tasks", "thewalrus/samples.py")])
p("C06", "Parallel photon-number probabilities equal the sequential tensor or fail",
  "For every Gaussian state and cutoff, the tensor of photon-number probabilities computed in parallel worker processes has every entry equal to the sequential computation and to the probability of that individual outcome, whatever the worker count and the order in which workers finish. If a worker crashes or a task raises, the call raises and never returns a partial, shifted or stale tensor.",
  ["schedules", "fault_sequences", "inputs", "crash_points"],
  "all task completion orders, worker counts and worker-crash points x pure and mixed states, displacements, cutoffs and hbar",
  "Tests compare one parallel and one sequential run of a small state; completion order and worker failures are never varied.",
  ["thewalrus/quantum/photon_number_distributions.py", "thewalrus/quantum/fock_tensors.py"],
  [("one delayed task per outcome, gathered and reshaped by index order", "thewalrus/quantum/fock_tensors.py:probabilities")],
  ["thewalrus.quantum.probabilities"])
p("C07", "Photon-number sampling of Gaussian states has the right distribution",
  "Photon-number samples of every Gaussian state (any covariance, displacement, value of hbar, or adjacency matrix with a target mean photon number) are independent draws from that state's exact photon-number distribution restricted to the requested limits, for every random stream. Rows beyond the requested total photon number are never returned.",
  ["inputs", "histories", "configurations"],
  "all states, means, hbar, cutoffs and photon limits x all random streams and sampling histories",
  "Tests compare a few two-mode states with loose tolerances; bias in displaced, mixed, correlated or hbar != 2 cases, or correlation between successive samples, is not looked at.",
  ["thewalrus/samples.py", "thewalrus/decompositions.py", "thewalrus/quantum/adjacency_matrices.py"],
  [("chain-rule sampling with heterodyne auxiliary variables", "thewalrus/samples.py:generate_hafnian_sample"),
   ("state from a graph", "thewalrus/samples.py:hafnian_sample_graph")],
  ["thewalrus.samples.hafnian_sample_state", "thewalrus.samples.hafnian_sample_graph", "thewalrus.samples.generate_hafnian_sample"])
p("C08", "Click sampling of Gaussian states has the right distribution",
  "Threshold (click) samples of every Gaussian state (any covariance, displacement, value of hbar, or adjacency matrix with a target mean photon number) are independent draws from that state's exact click-pattern distribution restricted to the requested limit on clicks, for every random stream and fan-out large enough to resolve the photon numbers. Rows with more clicks than requested are never returned.",
  ["inputs", "histories", "configurations"],
  "all states, means, hbar, fan-outs and click limits x all random streams and sampling histories",
  "Tests compare a few small states with loose tolerances.",
  ["thewalrus/samples.py", "thewalrus/loop_hafnian_batch_gamma.py"],
  [("fan-out chain-rule sampling", "thewalrus/samples.py:generate_torontonian_sample,get_heterodyne_fanout"),
   ("state from a graph", "thewalrus/samples.py:torontonian_sample_graph")],
  ["thewalrus.samples.torontonian_sample_state", "thewalrus.samples.torontonian_sample_graph", "thewalrus.samples.generate_torontonian_sample"])
p("C09", "Classically simulable samplers have the right distribution",
  "Samples of classical Gaussian states (photon numbers and clicks), of thermal states through interferometers, of rank-one graphs, of explicit photon-number probability tensors and of distinguishable squeezed states are independent draws from the exact distribution of the state they describe, for every valid input and random stream. A non-classical covariance matrix is refused rather than sampled.",
  ["inputs", "histories", "configurations"],
  "all valid states, displacements, hbar, graphs, probability tensors (with or without an out-of-range placeholder), squeezing parameters x all random streams",
  "Tests check means of a few inputs; joint distributions and displaced or hbar != 2 cases are hardly sampled.",
  ["thewalrus/samples.py", "thewalrus/csamples.py", "thewalrus/quantum/distinguishable_squeezers.py"],
  [("P-function sampling then Poisson detection", "thewalrus/samples.py:hafnian_sample_classical_state,torontonian_sample_classical_state"),
   ("negative binomial pair number, multinomial placement", "thewalrus/samples.py:hafnian_sample_graph_rank_one"),
   ("thermal sampling", "thewalrus/csamples.py:rescale_adjacency_matrix_thermal,generate_thermal_samples"),
   ("photon by photon routing", "thewalrus/quantum/distinguishable_squeezers.py:sample")],
  ["thewalrus.samples", "thewalrus.csamples", "thewalrus.quantum.distinguishable_squeezers.sample"])
p("C10", "Seeded sequential sampling is reproducible after any history",
  "After seeding the samplers, every following sequence of sequential sampling and random-matrix calls returns bit-for-bit the same results, whatever was computed, sampled, interrupted or failed in the process before the seeding. Different seeds give different streams.",
  ["histories", "inputs", "fault_sequences"],
  "all prior histories of calls (including aborted ones) x all seeds x all sequences of random-number-consuming calls",
  "Tests seed once and compare one repeated call; prior histories, interruptions and mixed call sequences are not explored.",
  ["thewalrus/samples.py", "thewalrus/csamples.py", "thewalrus/random.py", "thewalrus/quantum/distinguishable_squeezers.py"],
  [("all draws come from one seeded global stream", "thewalrus/samples.py:seed")],
  ["thewalrus.samples.seed"])
p("C11", "Random matrix generators give valid objects for every random stream",
  "Whatever values the underlying random stream delivers, random interferometers are unitary (orthogonal when real is asked), random symplectics are symplectic (orthogonal when passive), random covariances are valid quantum covariances at the given hbar (pure when asked), and the block and banded variants have the stated block or band structure and are real or block-diagonal when asked. Random interferometers are distributed by the Haar measure.",
  ["inputs", "histories", "fault_sequences"],
  "all sizes, options, bandwidths, scales and hbar x all random streams, including extreme but legal draws",
  "Tests draw a handful of matrices from one seed.",
  ["thewalrus/random.py"],
  [("QR with phase correction", "thewalrus/random.py:random_interferometer"),
   ("Bloch-Messiah composition", "thewalrus/random.py:random_symplectic,random_covariance"),
   ("products of block matrices", "thewalrus/random.py:random_banded_interferometer")],
  ["thewalrus.random"])
p("C12", "The approximate hafnian is an unbiased estimate for every random stream",
  "For every matrix with non-negative entries, the Monte Carlo hafnian is an unbiased estimator: over independent random streams its mean is the exact hafnian, for any number of samples, and its spread shrinks as the number of samples grows. Matrices it does not support are refused.",
  ["inputs", "histories"],
  "all non-negative symmetric matrices, sample counts x all random streams",
  "Tests compare one estimate with a wide tolerance.",
  ["thewalrus/_hafnian.py"],
  [("random-sign determinant estimator", "thewalrus/_hafnian.py:hafnian_approx,_one_det")],
  ["thewalrus.hafnian(approx=True)"])
p("C13", "Grouped click probabilities depend only on arguments and seed",
  "Grouped click probabilities and their errors are a function of the arguments and the given seed alone: they do not change with any earlier random draw, earlier call or concurrently running caller. For every input they estimate, without bias, the true distribution of the total number of clicks, with an error estimate that matches the spread between groups.",
  ["histories", "inputs", "schedules"],
  "all inputs (squeezed and general), transmission matrices, sample and group counts, seeds x all histories and concurrent callers",
  "Tests compare one default-seeded call with stored values.",
  ["thewalrus/grouped_click_probabilities.py"],
  [("the compiled random stream is re-seeded on entry", "thewalrus/grouped_click_probabilities.py:grouped_click_probabilities")],
  ["thewalrus.grouped_click_probabilities"])
p("C14", "Public functions never modify their arguments, even when interrupted",
  "No documented public function modifies an array, list or other mutable object passed to it, whether the call returns, raises, or is interrupted at an arbitrary point; the caller's data is bit-for-bit what it was. This holds for every dtype, memory layout and combination of options.",
  ["inputs", "crash_points", "histories"],
  "all public functions, argument types, layouts, options x all interruption points",
  "Tests pass temporaries and look at results, not at arguments, and never interrupt a call.",
  ["thewalrus/_hafnian.py", "thewalrus/_permanent.py", "thewalrus/_torontonian.py", "thewalrus/_hermite_multidimensional.py", "thewalrus/charpoly.py", "thewalrus/decompositions.py", "thewalrus/symplectic.py", "thewalrus/samples.py", "thewalrus/csamples.py", "thewalrus/fock_gradients.py", "thewalrus/quantum"],
  [("defensive copies before in-place diagonal or loop substitution", "thewalrus/_hafnian.py:hafnian,hafnian_repeated"),
   ("reductions build new arrays", "thewalrus/_hafnian.py:reduction")],
  ["every public function"])
p("C15", "Results do not depend on the history of earlier calls",
  "The result of every deterministic public function depends only on its arguments: repeating a call after any sequence of other calls, failed or interrupted calls, or modifications by the caller of previously returned values gives the same result. A returned value never changes because of a later call.",
  ["histories", "inputs", "crash_points"],
  "all sequences of public calls, aborted calls and caller mutations of returned values",
  "Each test runs a function in a fresh state once; caches shared across calls (memoised generators, cached partitions, module tables) are never stressed by long mixed histories.",
  ["thewalrus/reference.py", "thewalrus/_low_rank_haf.py", "thewalrus/_hafnian.py", "thewalrus/_hermite_multidimensional.py", "thewalrus/quantum"],
  [("memoised generators", "thewalrus/reference.py:memoized"),
   ("cached partitions", "thewalrus/_low_rank_haf.py:partitions")],
  ["every deterministic public function"])
p("C16", "Concurrent callers get the results they would get alone",
  "When several caller threads use the library at once, on shared or separate inputs, each deterministic call returns exactly what it returns when running alone, under every interleaving of the callers. No interleaving makes a call fail that would succeed alone.",
  ["schedules", "inputs", "histories"],
  "all interleavings at source-line granularity of two or more caller threads x all deterministic public functions",
  "The tests are single-threaded.",
  ["thewalrus/reference.py", "thewalrus/_low_rank_haf.py", "thewalrus/_hafnian.py", "thewalrus/decompositions.py", "thewalrus/quantum"],
  [("no shared mutable state except caches", "thewalrus/reference.py:memoized,T")],
  ["every deterministic public function"])
p("C17", "A failure inside a call surfaces and never becomes a wrong result",
  "If an exception (interrupt, memory exhaustion or numerical failure) strikes at any point inside a public call, the call either raises or returns the correct result, never a wrong one; and once the failure is gone, repeating the same call gives the correct result. Nothing the failed call left behind affects any later call.",
  ["crash_points", "fault_sequences", "histories"],
  "all fault kinds and fault points inside all public calls, followed by any later calls",
  "No test injects a failure.",
  ["thewalrus/reference.py", "thewalrus/_hafnian.py", "thewalrus/decompositions.py", "thewalrus/samples.py", "thewalrus/quantum"],
  [("exceptions propagate; no handler swallows them", "thewalrus")],
  ["every public function"])
p("C18", "Reference matchings are complete for all interleaved or aborted consumers",
  "The reference enumeration of perfect matchings, partitions and single-pair matchings with loops yields every matching exactly once to every consumer, however consumers are interleaved, abandoned half-way, interrupted or run from several threads, and the reference hafnian equals the sum over those matchings.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of partial consumers, abandonment and failure points, threads, sizes, and cache evictions",
  "Tests consume each enumeration once, completely, from one thread.",
  ["thewalrus/reference.py"],
  [("bounded memo of shared generators", "thewalrus/reference.py:memoized,partitions,rpmp,spm,mtl")],
  ["thewalrus.reference"],
  [("memo of partially consumed generators", "shared by all callers of the process", "thewalrus/reference.py:memoized")])
p("C19", "Library calls leave process-wide state untouched",
  "Importing or calling the library never changes process-wide state: deterministic functions neither read nor advance the global random stream, and no function changes floating-point error handling, warning filters, print options, recursion limits, the number of worker threads or the configuration of the task scheduler. This holds also for calls that fail or are interrupted.",
  ["histories", "crash_points", "inputs"],
  "all sequences of public calls, interrupted anywhere",
  "Tests never compare process state before and after calls.",
  ["thewalrus"],
  [("no global configuration is touched", "thewalrus")],
  ["numpy global random state, numpy error state, warning filters, dask configuration, thread count"])

# ---- pure functions of their input: stated, not claimed ----
NA = []
def na(id, title, statement, text, files, mech):
    p(id, title, statement, ["inputs"], text,
      "Tests sample a few fixed matrices; the statement is for every input.", files, mech)
    NA.append(id)
na("C31", "All permanent algorithms equal the definition",
  "The permanent computed by every offered method, with or without repetitions, equals the sum over permutations to rounding accuracy.",
  "all square matrices, methods, repetitions", ["thewalrus/_permanent.py"], [("Ryser, BBFG, repeated BBFG", "thewalrus/_permanent.py:perm")])
na("C32", "Recursive torontonians equal the subset-sum definition",
  "The recursive torontonian and loop torontonian equal the defining signed sum over subsets of modes.",
  "all valid matrices and loop vectors", ["thewalrus/_torontonian.py"], [("recursive Cholesky", "thewalrus/_torontonian.py:rec_torontonian,rec_ltorontonian")])
na("C33", "Multidimensional Hermite polynomials satisfy their recurrences",
  "Multidimensional Hermite polynomials, Fock amplitudes built from them and their gradients equal the loop hafnians and derivatives that define them.",
  "all matrices, vectors, cutoffs, options", ["thewalrus/_hermite_multidimensional.py"], [("recurrence fill", "thewalrus/_hermite_multidimensional.py")])
na("C34", "Matrix decompositions reconstruct their input with valid factors",
  "The Williamson, Bloch-Messiah, Takagi, Autonne and symplectic-eigenvalue decompositions return factors with the stated structure whose product is the input.",
  "all valid inputs", ["thewalrus/decompositions.py"], [("eigen and Schur decompositions", "thewalrus/decompositions.py")])
na("C35", "Symplectic toolbox operations are symplectic and preserve states",
  "Every gate and channel of the symplectic toolbox is the stated symplectic map, and applying it preserves validity of covariances and the stated means, losses and reductions.",
  "all parameters, modes, hbar", ["thewalrus/symplectic.py"], [("constructors", "thewalrus/symplectic.py")])
na("C36", "Fock representations of Gaussian objects are consistent",
  "Density matrices, state vectors, pure amplitudes, unitary and loss tensors agree with each other and with the hafnian formula for every state and cutoff.",
  "all states, cutoffs, hbar", ["thewalrus/quantum/fock_tensors.py"], [("tensor constructions", "thewalrus/quantum/fock_tensors.py")])
na("C37", "Gate gradients are the derivatives of the gate tensors",
  "The Fock-space gates and their gradients are mutually consistent derivatives for every parameter and cutoff.",
  "all parameters, cutoffs", ["thewalrus/fock_gradients.py"], [("recurrences", "thewalrus/fock_gradients.py")])
na("C38", "Power traces and characteristic polynomials equal those of the eigenvalues",
  "The computed power traces and characteristic-polynomial coefficients equal those obtained from the eigenvalues.",
  "all square matrices", ["thewalrus/charpoly.py"], [("La Budde algorithm", "thewalrus/charpoly.py")])
na("C39", "Photon statistics agree with the photon-number distribution",
  "Means, covariances, higher moments, cumulants and click statistics equal the moments of the state's photon-number distribution.",
  "all states, mode subsets", ["thewalrus/quantum/means_and_variances.py", "thewalrus/_montrealer.py", "thewalrus/quantum/photon_number_distributions.py"], [("Wick expansions", "thewalrus/quantum/means_and_variances.py")])
na("C40", "Representation conversions are mutually inverse",
  "Conversions among covariance, Husimi, adjacency and complex-displacement representations are mutual inverses and validity, purity and classicality tests agree with their definitions.",
  "all states, hbar", ["thewalrus/quantum/conversions.py", "thewalrus/quantum/gaussian_checks.py", "thewalrus/quantum/adjacency_matrices.py"], [("closed formulas", "thewalrus/quantum/conversions.py")])
na("C41", "Entanglement measures are invariant and non-negative",
  "Von Neumann entropy, entanglement entropy and logarithmic negativity are non-negative, vanish on product states and are invariant under local symplectic maps.",
  "all states, partitions", ["thewalrus/quantum/entanglement.py"], [("symplectic eigenvalues", "thewalrus/quantum/entanglement.py")])
na("C42", "Special-structure hafnians equal the general hafnian",
  "The banded, sparse, low-rank and recursive hafnian algorithms equal the general hafnian wherever they apply.",
  "all structured matrices", ["thewalrus/_hafnian.py", "thewalrus/_low_rank_haf.py"], [("structured algorithms", "thewalrus/_hafnian.py:hafnian_banded,hafnian_sparse,recursive_hafnian")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P), NA)
