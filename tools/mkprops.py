import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Exact sampling follows the law of the DPP the user defined",
"Every set returned by an exact sampling call on a finite DPP has the determinantal law of the kernel the user supplied: P(X=S) = |det(K - I restricted to the complement of S)|, with distinct items and never a set of probability zero. This holds for every valid parametrisation (correlation or likelihood matrix, eigendecomposition, Gram factor, projection, zonotope matrix, likelihood function with data), every advertised algorithm, and whatever calls were made on the same object before.",
["inputs","histories","configurations"],"all valid kernels (rank-deficient, repeated or boundary eigenvalues, duplicated items, any size), all parametrisations x algorithms, all call histories of the object, all outcomes of the random source",
"Tests check singleton/pair frequencies of one random kernel on fresh objects, and at this commit every one of those tests fails for an unrelated scipy reason, so no passing test constrains the samplers at all.",
["dppy/finite_dpps.py","dppy/exact_sampling.py"],
[("dispatch on the cached representation","FiniteDPP.sample_exact"),("chain rule / Cholesky / Schur / spectral samplers","dppy/exact_sampling.py")],
["return value of FiniteDPP.sample_exact under a simulated random source"],
[("cached representations","K, L, eigenpairs, dual kernel filled lazily by earlier calls","FiniteDPP")])

p("C02","Exact k-DPP sampling has exactly k items and the k-DPP law, for any history of k",
"Every set returned by an exact k-DPP call has exactly k distinct items and probability det(L_S) divided by the sum of det(L_T) over all T of size k (for a projection correlation kernel, k = rank and the law of that projection DPP). This holds for every feasible k, in any order of different k on the same object, interleaved with any other calls, for every parametrisation and advertised algorithm; an infeasible k raises ValueError.",
["inputs","histories","configurations"],"all kernels, all sequences of sizes k (growing, shrinking, repeated, infeasible in between) interleaved with other sampling, flushing and kernel conversion calls",
"Tests sample one fixed k from fresh objects; a second call with a larger k on the same object is never made, and the k-DPP law tests fail at this commit for an unrelated reason.",
["dppy/finite_dpps.py","dppy/exact_sampling.py"],
[("phase 1 selection of eigenvectors by elementary symmetric polynomials","k_dpp_eig_vecs_selector"),("reuse of the polynomial table between calls","FiniteDPP.sample_exact_k_dpp")],
["return value and exceptions of FiniteDPP.sample_exact_k_dpp"],
[("polynomial table","table computed for some earlier size","FiniteDPP.E_poly / size_k_dpp")])

p("C03","MCMC moves leave the target DPP or k-DPP law invariant",
"Started from a state distributed as the target, the state after any number of iterations of the add-exchange-delete, add-delete, exchange or zonotope chains is again distributed as the target: the DPP of the likelihood kernel, its k-DPP for exchange with fixed size, or the projection DPP of the correlation kernel. Long chains from any allowed state therefore converge to the advertised law.",
["inputs","histories","configurations"],"all likelihood kernels and projection correlation kernels, all chain lengths, all start states, all outcomes of the random source",
"Tests look at pooled frequencies of a few long chains at a loose level on one kernel, and they all fail at this commit for an unrelated reason; a wrong acceptance ratio for one move type passes the suite.",
["dppy/mcmc_sampling.py","dppy/finite_dpps.py"],
[("Metropolis acceptance per move type","add_exchange_delete_sampler, add_delete_sampler, basis_exchange_sampler, zonotope_sampler")],
["last state returned by FiniteDPP.sample_mcmc / sample_mcmc_k_dpp"])

p("C04","MCMC trajectories are legal chains of valid states",
"Without a time limit an MCMC call yields a trajectory of exactly the requested number of states, the first being the given start state, each a list of distinct in-range integer items of positive probability, consecutive ones differing by at most one legal move of the chosen sampler (size fixed for exchange), and it returns the last one. Chains run from every legal start state, including the empty set and the full ground set, without error.",
["inputs","histories","configurations"],"all kernels, modes, start states (empty, full, singletons), chain lengths and all (also rare) outcomes of the random source",
"Tests only count item frequencies of the pooled chain; extreme states such as the full ground set are rarely or never reached by the kernels used.",
["dppy/mcmc_sampling.py","dppy/finite_dpps.py"],
[("proposal generation and chain bookkeeping","add_exchange_delete_sampler, add_delete_sampler, basis_exchange_sampler"),("initial states","initialize_AED_sampler, initialize_AD_and_E_sampler")],
["trajectory appended to list_of_samples, return value of sample_mcmc"])

p("C05","The MCMC time limit is honoured whatever the clock does",
"With a time limit T, an MCMC call stops no later than the end of the iteration during which T seconds of running time have elapsed, and never stops before T has elapsed unless the requested number of iterations is done. The trajectory it records is then a non-empty prefix of the trajectory the same seed gives without a limit, and the returned state is its last element; steps of the wall clock change none of this.",
["schedules","fault_sequences","inputs"],"all iteration speeds, stalls, time limits, chain modes, and forward or backward jumps of the system wall clock during the run",
"No test passes a time limit; real-time tests could neither control stalls nor jump the clock, and only a controlled clock can tell one iteration too many from jitter.",
["dppy/mcmc_sampling.py"],
[("clock read after each iteration compared with the limit","T_max handling in the four samplers")],
["length and content of the recorded trajectory versus simulated elapsed time"])

p("C06","Same seed, same sample: randomness is reproducible and isolated",
"Every sampler (finite DPP exact, k-DPP and MCMC, intermediate, spanning tree, beta ensembles, Jacobi, polynomial potential, descent, Plancherel, BLESS) that is given an explicit random state draws all its randomness from it: two identical call sequences on fresh objects return identical results whatever the hash seed, the state of the global generator, the clock, other objects in use, or the interleaving with other threads using their own objects. The global generator is then left untouched, an integer seed equals a generator created from it, and a passed generator instance is advanced in place.",
["schedules","histories","configurations","inputs"],"all thread interleavings of independent objects, all hash seeds, global generator states, clock readings and interleaved histories of other objects",
"Tests never compare two runs; the test plugin reseeds the global generator before each test, which hides any leak to it.",
["dppy/utils.py","dppy/finite_dpps.py","dppy/exact_sampling.py","dppy/mcmc_sampling.py","dppy/intermediate_sampling.py","dppy/bless.py","dppy/exotic_dpps.py","dppy/exotic_dpps_core.py","dppy/beta_ensembles.py","dppy/random_matrices.py","dppy/multivariate_jacobi_ope.py","dppy/beta_ensemble_polynomial_potential.py"],
[("single entry point turning seeds into generators","check_random_state"),("generator threaded through every helper","random_state / rng parameters")],
["results of all samplers, state of the global numpy and python generators"])

p("C07","Each sampling call records exactly its own result, flush empties",
"For every sampler object with a sample history, each successful sampling call appends exactly one entry, equal to what the call returned (for MCMC the whole trajectory, whose last state is returned); a call rejected or failed with an error appends nothing; flushing empties the history and affects nothing else. Earlier entries never change, and the count shown in the textual description matches.",
["histories","fault_sequences","inputs"],"all interleavings of successful, failing and flushing calls on every sampler class, several objects alive at once",
"Tests use fresh objects and never look at the history after mixed, failing or flushed sequences.",
["dppy/finite_dpps.py","dppy/exotic_dpps.py","dppy/beta_ensembles.py"],
[("append at the end of each sampling method","sample_exact, sample_exact_k_dpp, sample_mcmc, sample, sample_full_model, sample_banded_model"),("flush_samples","all classes")],
["list_of_samples before and after each operation, str(object)"],
[("sample history","all samples so far","list_of_samples")])

p("C08","An interrupted or failed call leaves the DPP object fully usable",
"If a sampling or kernel-computation call on a finite DPP is cut short at any point - keyboard interrupt, memory exhaustion, a failing linear-algebra routine, an exception in the user's kernel function, a broken output stream, a warning turned into an error - the error propagates and the object stays valid. Every later call then succeeds as it would have without the failure and has the correct law, the recorded history holds only complete valid samples, and kernels computed later are correct.",
["crash_points","fault_sequences","histories"],"every call boundary inside every public operation as the failure point, every failure kind above, any history before and after",
"Tests inject no failures; half-updated caches only show when the failure falls between two particular statements.",
["dppy/finite_dpps.py","dppy/exact_sampling.py","dppy/intermediate_sampling.py"],
[("order in which cached representations are stored","FiniteDPP.sample_exact, sample_exact_k_dpp, compute_K, compute_L")],
["results of calls made after the injected failure, list_of_samples, K and L attributes"],
[("cached representations","lazily filled attributes that must change together","FiniteDPP")])

p("C09","User data and already returned results are never modified",
"No library call modifies an array, list, dictionary or polynomial the caller passed in (kernels, eigendecompositions, Gram factors, data, start states, parameter dictionaries, arrays returned by the caller's kernel function, points to normalise), whether the call succeeds, fails or is interrupted half-way. A result already returned to the caller is not changed by later calls on any object, so objects sharing the same input arrays never influence each other.",
["histories","crash_points","inputs"],"all public operations, sequences of them on objects sharing inputs, and failures at any point inside them",
"Tests never compare inputs before and after a call and never hold on to results across calls.",
["dppy/finite_dpps.py","dppy/exact_sampling.py","dppy/mcmc_sampling.py","dppy/intermediate_sampling.py","dppy/bless.py","dppy/beta_ensembles.py","dppy/beta_ensemble_polynomial_potential.py","dppy/multivariate_jacobi_ope.py","dppy/exotic_dpps.py"],
[("working copies inside samplers","A = K.copy(), V = eig_vecs.copy(), S1 = S0.copy()")],
["byte-wise snapshots of every argument and every earlier result"])

p("C10","Library calls leave process-wide settings as they found them",
"Importing aside, no sampling, kernel-computation or description call changes process- or thread-wide state: numpy's floating-point error handling, numpy print options, warning filters, the python generator and (when an explicit random state is given) numpy's global generator, the trace/profile hooks, the environment and the working directory. This holds also when the call fails or is interrupted part-way, at any point.",
["histories","crash_points","configurations"],"all public operations on every parametrisation, successful, failing and interrupted, from any prior process-wide configuration",
"Tests never look at process-wide state; a leaked floating-point mode only shows as an error in unrelated later code.",
["dppy/finite_dpps.py","dppy/exact_sampling.py","dppy/mcmc_sampling.py","dppy/beta_ensembles.py","dppy/exotic_dpps.py"],
[("floating-point error handling around K to L conversion","FiniteDPP.compute_L, sample_exact_k_dpp")],
["np.geterr(), warnings.filters, generator states, os.environ, cwd around each call"])

p("C11","Rejection-based exact samplers keep the exact law over any history",
"The vfx and alpha rejection samplers, for DPPs and k-DPPs defined by a likelihood function and data, return sets with exactly the (k-)DPP law of that function on that data, with any approximation parameters, and whatever was sampled before on the same object - either algorithm, other sizes, failed calls. A call ends with a valid sample or an explicit ValueError after the allowed number of rejections, never with a wrong or partial sample.",
["inputs","histories","configurations","fault_sequences"],"all kernel functions, data sets, oversampling parameters, histories mixing vfx/alpha and DPP/k-DPP calls of different sizes, and failures of the kernel function",
"Tests draw from fresh objects only and those law tests fail at this commit for an unrelated reason; the preprocessing cached by one call and reused by another kind of call is never exercised.",
["dppy/finite_dpps.py","dppy/exact_sampling.py","dppy/intermediate_sampling.py","dppy/bless.py"],
[("preprocessing reused between calls","intermediate_sample_info"),("acceptance thresholds","vfx_sampling_do_sampling_loop, alpha_dpp_sampling_do_sampling_loop")],
["return value of sample_exact / sample_exact_k_dpp with mode vfx or alpha"],
[("intermediate_sample_info","preprocessing result (rescaling, leverage estimates) kept on the object","FiniteDPP")])

p("C12","Uniform spanning tree samples are uniform spanning trees from every sampler",
"For every connected simple graph on two or more nodes (any labels, self-loops allowed), each call of the spanning tree sampler returns a spanning tree of exactly that graph - its node set, n-1 of its edges, connected and acyclic - and every spanning tree is equally likely, in every advertised mode (Wilson, Aldous-Broder, GS, and the correlation-kernel modes) and for every choice of root, including node 0. Unknown modes raise ValueError.",
["inputs","configurations","histories"],"all connected graphs, including trees, cycles, complete and single-edge graphs, all modes, all roots, all call orders on one object, all outcomes of the random source",
"Tests use one random graph per run and a coarse test; Aldous-Broder cannot even run on the installed numpy, and a fixed root is never passed.",
["dppy/exotic_dpps.py","dppy/exotic_dpps_core.py"],
[("loop-erased and covering random walks","ust_sampler_wilson, ust_sampler_aldous_broder"),("projection DPP on edges","UST.sample")],
["graphs appended to UST.list_of_samples"])

p("C13","Beta-ensemble samplers return points of the advertised joint law",
"Each call of a beta-ensemble sampler returns the requested number of points in the documented support whose joint law is the documented one (Hermite, Laguerre, Jacobi, circular, Ginibre), for every supported beta, size and reference-measure parameter; full-matrix and banded models with matching parameters agree in law, and beta=0 gives i.i.d. points. Unsupported parameters raise ValueError.",
["inputs","configurations","histories"],"all ensembles, models, beta values, sizes (including 1 and 2), reference parameters, and all orders of calls on one object",
"The five sampler tests all fail at this commit for an unrelated scipy reason, so nothing passing constrains these laws.",
["dppy/beta_ensembles.py","dppy/random_matrices.py"],
[("matrix models","hermite/laguerre/jacobi/circular/ginibre samplers"),("tridiagonal and quindiagonal models","mu_ref_*_sampler_tridiag, mu_ref_unif_unit_circle_sampler_quindiag")],
["return values of sample_full_model / sample_banded_model"])

p("C14","Multivariate Jacobi sampler: N points in the cube with the projection DPP law",
"For every number of points, dimension and admissible Jacobi parameters, each call returns an N x d array of points inside the cube, distributed as the projection DPP of the multivariate orthogonal polynomials (one-point density and pair correlations included), with either one-dimensional algorithm. If the allowed number of rejections runs out the call says so with an error instead of returning a point set that was not accepted.",
["inputs","configurations","fault_sequences"],"all N, d, Jacobi parameters in the admissible range, proposal budgets and (also rare) outcomes of the random source",
"Tests cover norms and kernel evaluations, not the sampled law, and never exhaust the rejection budget.",
["dppy/multivariate_jacobi_ope.py"],
[("chain rule with rejection","MultivariateJacobiOPE.sample"),("mixture proposal","sample_chain_rule_proposal")],
["return value of MultivariateJacobiOPE.sample"])

p("C15","Descent, carries, permutation and Plancherel samplers have the documented laws",
"The carries, descent and limiting virtual-descent processes, the uniform permutation and the Poissonised Plancherel sampler produce, for every size and parameter, results in the documented range with exactly the documented law: determinantal correlation functions for the point processes, uniformity for permutations, and Poissonised squared-dimension weights for Young diagrams.",
["inputs","histories","configurations"],"all sizes (including 0, 1, 2), bases, mixing parameters and Poisson means, all orders of calls, all outcomes of the random source",
"Tests compare single-site frequencies of one long sample at a loose level; joint laws, small sizes and the Plancherel law are not tested.",
["dppy/exotic_dpps.py","dppy/exotic_dpps_core.py"],
[("Fisher-Yates shuffle","uniform_permutation"),("descents / carries extraction","CarriesProcess.sample, DescentProcess.sample, VirtualDescentProcess.sample"),("RSK shape","PoissonizedPlancherel.sample")],
["list_of_samples, list_of_young_diag, return value of uniform_permutation"])

p("C16","Gibbs sampler for polynomial potentials targets the right ensemble",
"For every supported potential and beta the Gibbs sampler returns N real sorted points (or the requested chain of them, one column per pass), and each coefficient update leaves its true conditional law invariant (draws from it, with exact conditionals). So one exact pass over a quadratic potential, or over a single point, gives exactly the law with density |Delta|^beta exp(-(beta N/2) sum V), and for every supported potential that law is the stationary law of the chain. Unsupported potentials, or exact conditionals that are not log-concave, raise ValueError before sampling.",
["inputs","configurations","histories"],"all supported polynomial potentials, beta, N, numbers of passes, exact and approximate conditionals, output forms",
"No passing test samples from this class at all.",
["dppy/beta_ensemble_polynomial_potential.py","dppy/beta_ensemble_polynomial_potential_core.py"],
[("Gibbs sweep over the Jacobi coefficients","BetaEnsemblePolynomialPotential.sample_mcmc"),("exact log-concave sampler","sampler_exact_convex_quartic"),("Langevin step","sampler_mala")],
["return value of sample_mcmc and of the exact conditional sampler"])

p("C17","BLESS returns a consistent and accurate dictionary or raises",
"For every data set and kernel function, the BLESS routines either raise ValueError or return a dictionary whose indices are distinct, sorted and in range, whose points are exactly the data at those indices, whose inclusion probabilities are positive, match their number and are those the items were kept with (weighting by their inverse is unbiased), at the requested regularisation, in a bounded number of steps and without modifying the data; ridge leverage scores estimated from it are, with the documented oversampling, within a constant factor of the exact ones. An error raised by the kernel function propagates unchanged.",
["inputs","configurations","fault_sequences"],"all data sets, kernel functions, regularisations, oversampling and iteration parameters, failures of the kernel function at any call, all outcomes of the random source",
"The existing test checks one data set and kernel with one seed.",
["dppy/bless.py"],
[("coarse-to-fine dictionary refinement","bless, bless_size, reduce_lambda"),("leverage score estimate","estimate_rls_bless")],
["returned CentersDictionary, exceptions"])

p("C18","Kernel conversions are correct from any representation and history",
"Whenever the correlation kernel K or likelihood kernel L of a finite DPP is computed, from whatever parametrisation and after whatever earlier calls, it equals the kernel of the DPP the user defined: symmetric, K = L(I+L)^-1 and L = K(I-K)^-1. Requesting L of a kernel with eigenvalue one raises an error and leaves the object usable, and computing kernels never changes the law of later samples.",
["inputs","histories","configurations"],"all kernels and parametrisations, all orders of conversions and sampling calls, repeated and failing conversions",
"Tests check conversions on fresh objects in a fixed order only.",
["dppy/finite_dpps.py"],
[("lazy conversions through cached eigenpairs","FiniteDPP.compute_K, compute_L")],
["K and L attributes after each operation compared with a reference computed from the user's parameters"],
[("cached representations","K, L, eigenvalues, eigenvectors","FiniteDPP")])

p("C19","An invalid kernel is rejected every time it is used, never sampled from",
"A finite DPP whose parameters do not define a valid kernel (asymmetric, correlation eigenvalues outside [0,1], negative likelihood eigenvalues, non-orthonormal eigenvectors, non-projection declared as projection, rank-deficient zonotope matrix) is rejected with an error at construction or at every sampling or conversion call that needs the spectrum: having been rejected once, a retry of the call is rejected again and never returns a sample. Valid kernels are never rejected, whatever the history.",
["inputs","histories","fault_sequences"],"all invalid and borderline-valid kernels, every parametrisation, every sequence of retries with the same or other modes",
"Tests check that construction rejects some invalid inputs, never that a second call after a rejection is still rejected.",
["dppy/finite_dpps.py","dppy/utils.py"],
[("validators","is_symmetric, is_projection, is_in_01, is_geq_0, is_orthonormal_columns, is_full_row_rank"),("validation after eigendecomposition","sample_exact, sample_exact_k_dpp, compute_K, compute_L")],
["exceptions and results of repeated calls"])

p("C23","What is normalised or displayed is the last recorded sample",
"Displaying a process always shows its last recorded sample, and normalising points always uses the parameters that sample was drawn with - whatever calls were made, rejected or interrupted since. For beta ensembles normalize_points applies the documented rescaling for the model, size and parameters of the last sample, so that large normalised samples follow the documented limiting law, and plot and hist show those points, normalised or not as asked, under the size, ratios and limiting curve of that sample; carries, descent, Plancherel and spanning tree displays show the last sample, and plot_kernel shows the requested kernel. A display never fails on a legal sample, however small.",
["inputs","histories","fault_sequences"],"all classes with a display or normalisation, all parameters, all histories of accepted, rejected and interrupted sampling calls, flushes and displays",
"Tests normalise once, right after one successful call on a fresh object, and never look at what a plot contains.",
["dppy/beta_ensembles.py","dppy/exotic_dpps.py","dppy/finite_dpps.py","dppy/multivariate_jacobi_ope.py","dppy/beta_ensemble_polynomial_potential.py"],
[("rescaling to the limiting law","normalize_points of each beta ensemble"),("displays","plot, hist, plot_diagram, plot_graph, plot_kernel")],
["return value of normalize_points","points, bins and arrays handed to matplotlib"],
[("parameters of the last sample","params, sampling_mode","BetaEnsemble"),("size of the last sequence","size","Descent")])

p("C24","Successive samples are independent of each other and of earlier calls",
"Every sampling call draws afresh: the sample it returns is statistically independent of every sample returned before it, by the same object or another one - whether the calls share a generator, use numpy's global generator (the default) or are given different seeds, whatever other calls, flushes, failures or interrupts happened in between, and whichever of the library's classes and algorithms are mixed. In particular a sampler of a continuous law never returns the same points twice.",
["histories","inputs","fault_sequences","configurations"],"all sequences of sampling calls on one or several objects of any class, all ways of seeding, all other calls and failures interleaved",
"Tests that draw repeatedly only look at pooled frequencies, which are blind to samples being reused or correlated from one call to the next, and always pass one generator to one object.",
["dppy/finite_dpps.py","dppy/exact_sampling.py","dppy/mcmc_sampling.py","dppy/intermediate_sampling.py","dppy/random_matrices.py","dppy/exotic_dpps.py","dppy/exotic_dpps_core.py","dppy/multivariate_jacobi_ope.py","dppy/beta_ensemble_polynomial_potential.py","dppy/bless.py","dppy/utils.py"],
[("fresh randomness per call","check_random_state and every sampler"),("caches kept between calls","FiniteDPP attributes, intermediate_sample_info, UST kernel, Jacobi proposal bounds")],
["results of consecutive calls"],
[("caches kept between calls hold nothing random that a later sample reuses","eigenpairs, kernels, polynomial table, preprocessing of the rejection samplers","FiniteDPP, UST, MultivariateJacobiOPE")])

p("C25","A copied or restored sampler behaves exactly like the original",
"At any point of its history, also after rejected, failed or interrupted calls, every sampler object can be deep-copied, and every one but the polynomial-potential ensembles can be saved and restored with pickle (if the user's kernel function can), in the same process or after a restart. From then on the copy gives, for the same seeds, exactly the results, errors, records and kernels that an object never copied gives, and original and copy share nothing: calls on one never change what the other does.",
["histories","crash_points","fault_sequences"],"all classes and parametrisations, all histories before the copy including failures, all later calls in any order of turns, restarts of the process",
"Tests never copy or save an object; parallel Monte Carlo with worker processes, the common use of a sampler, rests on it.",
["dppy/finite_dpps.py","dppy/exotic_dpps.py","dppy/beta_ensembles.py","dppy/multivariate_jacobi_ope.py","dppy/intermediate_sampling.py"],
[("state held in the object's attributes only, complete and consistent","FiniteDPP, UST, BetaEnsemble, Descent, PoissonizedPlancherel, MultivariateJacobiOPE")],
["results, errors and records of the copy, of the original and of an object never copied"],
[("object state","constructor arguments, cached representations, record","attributes of every sampler class")])

p("C20","RSK insertion yields a pair of standard Young tableaux determining the input",
"For every sequence, the RSK insertion returns two tableaux of the same shape, semistandard and standard respectively, from which the input can be recovered.",
["inputs"],"all finite integer sequences","Tests check a few fixed permutations.",
["dppy/exotic_dpps_core.py"],[("row bumping","RSK")],["return value of RSK"])
p("C21","Symmetric polynomial, determinant and validation helpers are exact",
"The elementary symmetric polynomial table, submatrix determinants and matrix-property validators compute exactly the mathematical quantity or predicate they name, within floating-point tolerance, for every input.",
["inputs"],"all eigenvalue vectors, matrices and index sets","Tests check a handful of arrays.",
["dppy/exact_sampling.py","dppy/utils.py"],[("recursion","elementary_symmetric_polynomials"),("predicates","dppy/utils.py")],["return values"])
p("C22","Deterministic densities, kernels and Tracy-Widom evaluations are accurate",
"Equilibrium densities, limiting spectral laws, multivariate Jacobi polynomial norms and kernel values, and the Tracy-Widom distribution function evaluate to the documented mathematical functions within stated accuracy.",
["inputs"],"all parameters and evaluation points","Tests compare a few points.",
["dppy/random_matrices.py","dppy/beta_ensemble_polynomial_potential_core.py","dppy/multivariate_jacobi_ope.py"],[("closed forms and quadrature","semi_circle_law, equilibrium_x2m, MultivariateJacobiOPE.K, TracyWidom.cdf")],["return values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
