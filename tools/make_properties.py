"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

E = "infomeasure/estimators/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["return values of the public functions and estimator objects"],
            hook_needed=None)))


I = ["inputs"]
IC = ["inputs", "configurations"]

p("A01", "Discrete plug-in entropies equal their definition",
  "For every discrete sample (any hashable labels: signed, unsigned or huge integers, booleans, strings; one- or multi-column; plain or joint tuple of variables) the discrete entropy equals -sum p log p over the observed relative frequencies, the discrete cross-entropy equals -sum p log q over the common support (0 if there is none), the KLD equals cross-entropy minus entropy, and the discrete JSD of n samples equals the entropy of the averaged distribution minus the mean entropy. "
  "This holds for every sample size, alphabet, number of joint variables and logarithm base.",
  IC, "all discrete samples x labels/dtypes x joint arity x bases",
  "The tests compare some dozens of hand-written arrays; label encodings, alphabet sizes, dtypes and joint arities are unbounded.",
  [E + "entropy/discrete.py", E + "base.py", "infomeasure/utils/data.py", "infomeasure/composite_measures/jsd.py", "infomeasure/composite_measures/kld.py", E + "utils/ordinal.py"],
  [("relative frequencies of unique values", "utils/data.py DiscreteData"), ("joint space reduction", "estimators/utils/ordinal.py reduce_joint_space"), ("averaged distribution", "composite_measures/jsd.py")])

p("A02", "Discrete MI and CMI equal the plug-in entropy combination",
  "For any number of discrete variables (and any conditional variable or tuple of them) the discrete mutual information equals sum H(Xi) - H(X1..Xn) and the discrete conditional mutual information equals sum H(Xi,Z) - H(X1..Xn,Z) - H(Z) of the plug-in entropies of the same sample, with an offset pairing x[t] with y[t+offset]. "
  "The Miller-Madow variants are these values plus the documented correction term computed from the numbers of observed states.",
  IC, "all samples x number of variables (2..n) x conditions x labels x offsets x bases",
  "Tests use small integer arrays with two or three variables; large alphabets, mixed label types, many variables and overflowing count products are not reached.",
  [E + "utils/discrete_interaction_information.py", E + "mutual_information/discrete.py", E + "mutual_information/miller_madow.py", E + "mixins.py", E + "base.py"],
  [("contingency-table formulas", "estimators/utils/discrete_interaction_information.py"), ("offset slicing", "estimators/base.py MutualInformationEstimator")])

p("A03", "Bias-corrected entropies equal their published formulas",
  "For every discrete sample the Miller-Madow, Grassberger, Chao-Shen, Chao-Wang-Jost, Bonachela, Zhang, shrinkage, Bayes (every documented prior), NSB and ANSB entropies, of one variable or of a joint variable, equal the formula documented for them evaluated on the observed counts; likewise the cross-entropies offered by Miller-Madow and Bayes and the JSD offered by Bayes and shrinkage. "
  "NSB and ANSB return NaN when no state was observed twice, and the other estimators always return a finite value.",
  IC, "all count vectors (incl. all-singleton, constant, single sample, no singletons/doubletons) x priors/K parameters x bases",
  "Tests pin a table of values per estimator on a few arrays; the corner regimes (f1=0, f2=0, f1=N, huge N, given K) are branch specific and unsampled.",
  [E + "entropy/%s.py" % n for n in "miller_madow grassberger chao_shen chao_wang_jost bonachela zhang shrink bayes nsb ansb".split()],
  [("one closed formula per estimator over counts", "estimators/entropy/*.py")])

p("A04", "Derived MI/CMI/TE/CTE equal the combination of their entropies",
  "For the Grassberger, Chao-Shen, Chao-Wang-Jost, Bonachela, Zhang, Bayes, NSB and ANSB approaches the mutual information, conditional mutual information, transfer entropy and conditional transfer entropy equal the corresponding combination of the same approach's own (joint) entropies of the data, MI = sum H(Xi) - H(X1..Xn), CMI = sum H(Xi,Z) - H(X1..Xn,Z) - H(Z) and TE/CTE = H(F,C,D) + H(S,C,D) - H(S,F,C,D) - H(C,D) on the delay embedding, with all approach parameters passed on. "
  "For Miller-Madow TE/CTE the same holds and for shrinkage either this combination or the mean of its pointwise combination holds.",
  IC, "all discrete samples x approaches x parameters x number of variables x history lengths/steps/delays",
  "Tests pin single values per approach; parameter forwarding and slicing combinations are not cross-checked against the entropies.",
  [E + "base.py", E + "mutual_information/bayes.py", E + "transfer_entropy/bayes.py", E + "mixins.py", E + "utils/te_slicing.py"],
  [("generic combination from entropy estimators", "estimators/base.py _generic_*_from_entropy")])

p("A05", "Discrete (C)TE equals CMI of the delay embedding",
  "For every pair (triple) of discrete series and every source/destination/conditional history length, step size and propagation time, the discrete transfer entropy equals I(source history ; destination future | destination history) and the conditional transfer entropy additionally conditions on the conditioning history, where the histories are the l samples t-l*step, ..., t-step of each series, the future is the destination at t, t runs over max(history)*step, +step, ... and the source (not the condition) is shifted by the propagation time, which only the unconditional transfer entropy accepts. "
  "The Miller-Madow TE and CTE are the same values plus the documented correction.",
  IC, "all series x history lengths x step sizes x propagation times x bases",
  "Tests cover few (length, step, delay) combinations, mostly with pinned values; the slicing index arithmetic is combinatorial in its parameters.",
  [E + "utils/te_slicing.py", E + "utils/discrete_transfer_entropy.py", E + "transfer_entropy/discrete.py", E + "transfer_entropy/miller_madow.py", E + "base.py"],
  [("index construction of the embedding", "estimators/utils/te_slicing.py")])

p("A06", "Ordinal measures equal plug-in measures of ordinal patterns",
  "Ordinal entropy, joint entropy, cross-entropy, JSD, MI, CMI, TE and CTE equal the discrete plug-in measure of the sequences of ordinal patterns (the argsort of each delay vector of the given embedding dimension and step size), for tie-free data and, with stable=True, also for data with ties; embedding dimension 1 always gives 0.",
  IC, "all real or integer series x embedding dimensions x step sizes x history parameters; stable flag for tied data",
  "Tests cover dimensions up to 5 on few short series; there are special code paths for dimensions 2 and 3, for one window and for joint variables.",
  [E + "entropy/ordinal.py", E + "utils/ordinal.py", E + "mutual_information/ordinal.py", E + "transfer_entropy/ordinal.py"],
  [("symbolization", "estimators/utils/ordinal.py symbolize_series"), ("shortcuts for dimension 2 and 3", "estimators/entropy/ordinal.py")])

p("A07", "Kozachenko-Leonenko entropies equal the kNN formula",
  "For every continuous sample (one or more columns, or a tuple of variables) the Kozachenko-Leonenko entropy equals -psi(k) + psi(N) + log c_d + (d/N) sum log(2 rho_i) with rho_i the distance to the k-th nearest neighbour in the chosen Minkowski metric and c_d the volume of the unit-diameter ball, plus 1/k for the second variant, and the cross-entropy uses the neighbours in the second sample and its size; the result does not depend on ordering of the samples. ",
  IC, "all continuous samples x dimensions x k x Minkowski p x variant x base",
  "Tests use seeded Gaussian samples with loose tolerance or a few pinned numbers.",
  [E + "entropy/kozachenko_leonenko.py", E + "utils/unit_ball_volume.py"],
  [("k-d tree query of k+1 neighbours", "estimators/entropy/kozachenko_leonenko.py")])

p("A08", "KSG MI/CMI/TE/CTE equal the neighbour-counting definition",
  "For every continuous sample the KSG mutual information, conditional mutual information, transfer entropy and conditional transfer entropy equal the value obtained by counting neighbours exhaustively: psi(k) (- 1/k for variant 2) combined with the digammas of the numbers of samples within the k-th joint-space neighbour distance in each marginal subspace (strictly within and plus one for variant 1; within or equal, including the sample itself, for variant 2), for every k, Minkowski p, number of variables and columns and delay embedding.",
  IC, "all continuous samples x variables/columns x k x Minkowski p x variant x base x embedding parameters",
  "Tests compare seeded samples with pinned or analytic values under loose tolerance; no exhaustive neighbour count is ever done.",
  [E + "mutual_information/kraskov_stoegbauer_grassberger.py", E + "transfer_entropy/kraskov_stoegbauer_grassberger.py"],
  [("k-d tree neighbour counts in marginal spaces", "estimators/mutual_information/kraskov_stoegbauer_grassberger.py"), ("joint space construction", "estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py")])

p("A09", "Kernel measures equal the kernel density definition",
  "For box and Gaussian kernels and every bandwidth, kernel entropy, joint entropy, cross-entropy, JSD, MI, CMI, TE and CTE equal the mean log (ratio of) kernel densities evaluated exhaustively at the samples: box = fraction of samples within half a bandwidth in every coordinate divided by bandwidth^d, Gaussian = the Gaussian kernel density with the given bandwidth factor on the sample covariance.",
  IC, "all continuous samples x columns x variables x kernels x bandwidths x base x embedding parameters",
  "Tests use few pinned values; multi-column, many-variable and cross-entropy combinations are not compared with a direct density evaluation.",
  [E + "utils/kde.py", E + "entropy/kernel.py", E + "mutual_information/kernel.py", E + "transfer_entropy/kernel.py", "infomeasure/composite_measures/jsd.py"],
  [("density evaluation", "estimators/utils/kde.py")])

p("A10", "Renyi and Tsallis measures equal the kNN formulas and their limits",
  "Renyi and Tsallis entropies, joint and cross-entropies of continuous samples equal the Leonenko-Pronzato-Savani nearest-neighbour formulas for every order and k, order 1 gives the Shannon limit and is approached continuously, and MI, CMI, TE and CTE of these approaches equal the corresponding combination of their entropies.",
  IC, "all continuous samples x columns x orders (below, at, near and above 1) x k x base x embedding parameters",
  "Tests pin values at few orders; behaviour around the removable singularity at 1 and cross variants are not compared with a brute force evaluation.",
  [E + "entropy/renyi.py", E + "entropy/tsallis.py", E + "utils/exponential_family.py", E + "mutual_information/renyi.py", E + "mutual_information/tsallis.py", E + "transfer_entropy/renyi.py", E + "transfer_entropy/tsallis.py"],
  [("k-th neighbour distances and I_q estimate", "estimators/utils/exponential_family.py")])

p("A11", "Divergences obey their defining identities",
  "For every approach that offers it, KLD(P,Q) equals cross-entropy(P,Q) minus entropy(P), JSD is symmetric under permutation of its arguments, zero for identical samples, and for frequency-based approaches with common label alphabets lies between 0 and log n for n samples; discrete KLD is non-negative when P's support is contained in Q's and zero for identical distributions. "
  "Approaches without a sound divergence refuse with an error instead of returning a number.",
  IC, "all samples x approaches x number of distributions x base",
  "Tests check a handful of fixed pairs.",
  ["infomeasure/composite_measures/jsd.py", "infomeasure/composite_measures/kld.py", E + "functional.py"],
  [("divergence from entropies", "composite_measures/")])

p("B01", "Local values average to the global value, one per observation",
  "Whenever an estimator object offers local values for an entropy, MI, CMI, TE or CTE, there is exactly one finite local value per observation in the effective sample, in sample order, and their mean equals the global value (except for the documented shrinkage entropy); for discrete approaches equal observations have equal local values and the value is the pointwise formula of that observation. "
  "Where local values are not meaningful the call refuses with an unsupported-operation or theoretical-inconsistency error, and the result does not depend on whether local or global values are asked for first.",
  IC, "all samples x approaches with local values x parameters x order of queries",
  "Tests check means on few arrays; the pointwise values and their order are not compared with a definition.",
  [E + "base.py", E + "utils/discrete_interaction_information.py", E + "entropy/discrete.py", E + "entropy/zhang.py", E + "entropy/grassberger.py", E + "entropy/miller_madow.py", E + "entropy/ordinal.py"],
  [("lazy extraction of local values", "estimators/base.py Estimator.local_vals")])

p("B02", "Discrete measures are invariant to relabeling, reordering and argument order",
  "Every measure of every discrete approach gives the same value when the labels of any variable are renamed by a bijection (also across types such as integers to strings), MI/CMI/entropies when all observations are permuted jointly, joint entropy when variables are reordered, and MI/CMI when variables are exchanged.",
  IC, "all discrete samples x bijections x permutations x approaches",
  "A metamorphic relation over all inputs and bijections; tests use fixed inputs.",
  [E + "base.py", E + "utils/discrete_interaction_information.py", E + "utils/ordinal.py", "infomeasure/utils/data.py"],
  [("counts of unique values only", "utils/data.py")])

p("B03", "Continuous measures respect translation, scale, order and monotone maps",
  "Entropies of kNN and kernel approaches are unchanged by translating or jointly reordering the samples and shift by d*log|a| when the data (and box bandwidth) are scaled by a (Shannon and Renyi), KSG/kernel/Renyi MI and CMI are unchanged by jointly reordering samples, translating, and exchanging variables, KSG measures (and two-variable box-kernel MI with the bandwidth scaled along) are unchanged by common rescaling, normalized MI is unchanged by affine maps of each variable, and ordinal measures are unchanged by any strictly increasing map.",
  IC, "all continuous samples x transformations x approaches",
  "Metamorphic relations over all inputs and transformations are not in the tests.",
  [E + "entropy/", E + "mutual_information/", E + "utils/kde.py", E + "utils/normalize.py", E + "utils/ordinal.py"],
  [("distance based estimates", "estimators/*"), ("normalization", "estimators/utils/normalize.py")])

p("B04", "Logarithm base only rescales results and is resolved at call time",
  "For every measure and approach except Tsallis, the value in base b equals the value in nats divided by ln b for every b > 1, both for global and local values. "
  "When no base is passed, the value is that of the base configured at the time of the call, and a passed base overrides the configuration without changing it.",
  IC + ["histories"], "all samples x approaches x bases x sequences of configuration changes and calls",
  "Tests check three bases for some estimators and never change the configuration between calls of every measure.",
  [E + "base.py", "infomeasure/utils/config.py", E + "utils/discrete_interaction_information.py"],
  [("base resolution", "estimators/base.py Estimator.__init__"), ("_log_base", "estimators/base.py")],
  state=[dict(name="Config._settings", meaning="process-wide defaults", where="infomeasure/utils/config.py")])

p("B05", "Information inequalities hold for plug-in measures",
  "Plug-in (discrete, ordinal) entropies lie between 0 and log of the number of observed states, joint entropy is at least each marginal and at most their sum, MI, CMI, TE and CTE are non-negative, MI is at most the smaller marginal entropy, CMI/TE at most the conditional entropy of the target, MI(X,X) equals H(X), deterministic functions carry full information, constants carry none, and data processing and chain rule hold.",
  IC, "all discrete samples x variables x embedding parameters",
  "Inequalities over all samples; tests only check signs on fixed examples.",
  [E + "entropy/discrete.py", E + "utils/discrete_interaction_information.py", E + "transfer_entropy/discrete.py", E + "entropy/ordinal.py"],
  [("plug-in formulas", "estimators/")])

p("C01", "Calls never modify the caller's data or global random state",
  "No estimation, local-value, statistical-test, effective-value or divergence call of any measure and approach changes the content, shape, dtype or flags of the arrays, lists or tuples passed in, NumPy's and Python's global random state, the package configuration, or NumPy's error-handling settings; read-only arrays are accepted wherever writable ones are.",
  IC + ["histories"], "all measures x approaches x parameters x input layouts",
  "Tests never look at their inputs after the call.",
  [E + "base.py", E + "mixins.py", E + "mutual_information/", E + "transfer_entropy/", E + "utils/te_slicing.py"],
  [("noise added to copies", "mutual_information/kraskov_stoegbauer_grassberger.py, base.py"), ("private random generator", "estimators/mixins.py RandomGeneratorMixin")])

p("C02", "Results do not depend on container, dtype or memory layout",
  "Passing the same numbers as a list, an array of any dtype that represents them exactly, a Fortran-ordered, strided, reversed-view, read-only or column (n,1) array, or a multi-column array instead of a tuple for a joint entropy, gives the same result for every measure and approach.",
  IC, "all samples x containers/dtypes/layouts x measures x approaches",
  "Tests pass contiguous int64/float64 arrays almost exclusively.",
  [E + "base.py", E + "utils/array.py", E + "utils/te_slicing.py", E + "utils/ordinal.py", E + "utils/normalize.py"],
  [("asarray conversions", "estimators/base.py"), ("2-D promotion", "estimators/utils/array.py")])

p("C03", "All interfaces and names give the same result",
  "For every measure and approach, the functional call, its short alias, the generic function with cond, the estimator factory with every spelling of the measure, the estimator class obtained from the class lookup, and every documented approach alias in any letter case return the same value for the same arguments, with every keyword argument taking effect in each; an estimator object's result(), global_val() and the functional value agree, and unknown measures, approaches or keyword arguments are rejected.",
  IC, "all measures x approaches x aliases x spellings x keyword arguments",
  "Tests check one alias per estimator and no forwarding of every keyword.",
  [E + "functional.py", "infomeasure/__init__.py"],
  [("dispatch tables", "estimators/functional.py")])

p("C04", "Estimators and functions are independent of call history",
  "Every result is a function of the arguments and configuration at the time of the call: repeated calls, any interleaving with other estimators on other data, repeated or reordered queries of one object (result, local values, statistical tests, effective values), deleting and recreating inputs, and later modification of unrelated objects never change it, and statistical tests leave the object's global and local values as a fresh object would report.",
  IC + ["histories"], "all sequences of API calls",
  "Unit tests make one or two calls per object; caches and stateful attributes need call sequences.",
  [E + "base.py", E + "mixins.py", E + "mutual_information/ordinal.py", E + "entropy/nsb.py", E + "utils/ordinal.py", E + "entropy/zhang.py"],
  [("cached results and lookup tables", "estimators/*"), ("data restored after tests", "estimators/mixins.py")],
  state=[dict(name="res_global/res_local", meaning="lazily cached results", where="estimators/base.py"), dict(name="module-level caches", meaning="memoized special functions and pattern codes", where="estimators/entropy/*.py")])

p("C05", "Statistical test results are consistent summaries",
  "For every test result, n_tests values were drawn, the observed value is the estimator's global value, the p-value is the fraction of test values strictly greater than it, null mean and standard deviation (n-1) are those of the test values, the t-score is (observed - mean)/std or NaN when std is zero, percentiles and confidence intervals are those of the test values, and method and number of tests are the passed ones or else the configured defaults at the time of the call. "
  "Fewer than two tests, unknown methods, and measures or numbers of variables without a test are rejected.",
  IC + ["histories"], "all measures with tests x approaches x n_tests x methods x configuration",
  "Tests check a few pinned p-values and attribute presence.",
  [E + "mixins.py", "infomeasure/utils/data.py", "infomeasure/utils/config.py"],
  [("summary computation", "estimators/mixins.py _statistical_test_result"), ("percentiles", "utils/data.py StatisticalTestResult")])

p("C06", "The null distribution comes from resampling exactly the source",
  "Every test value of an MI/CMI permutation (bootstrap) test is the measure of the data with the first variable's observations permuted (drawn with replacement) and everything else unchanged, and every TE test value the measure with the source history's observations permuted (drawn with replacement) relative to the unchanged target, so permutations leave marginal statistics intact, bootstrap draws are observed values only, and different draws are used for different tests.",
  IC, "all measures with tests x approaches x data on which all permutations can be enumerated",
  "Tests only check that p-values are in [0,1] or pinned for a seed.",
  [E + "mixins.py", E + "utils/te_slicing.py", E + "utils/discrete_transfer_entropy.py", E + "base.py"],
  [("permuting the source", "estimators/utils/te_slicing.py"), ("permuting the first variable", "estimators/mixins.py")])

p("C07", "A failing or interrupted call leaves no damage behind",
  "If an estimation or a statistical test is interrupted by an error or a keyboard interrupt delivered at any of its calls into the numerical libraries, the exception reaches the caller, the caller's data, the configuration and global random state are unchanged, and repeating the query on the same object or a fresh one gives the value of an undisturbed run.",
  ["fault_sequences", "crash_points", "inputs"], "all measures x approaches x library call steps at which an exception is injected",
  "Tests inject no faults.",
  [E + "mixins.py", E + "base.py", E + "functional.py", "infomeasure/utils/config.py"],
  [("restoration in finally blocks", "estimators/mixins.py")],
  observe=["exceptions injected at entry to and return from library calls of the package via a profile hook", "re-queried results"])

p("C08", "Seeds make randomized results reproducible and nothing else random",
  "With the same integer or Generator-equivalent seed, every randomized result (noise-perturbed estimates, statistical tests, effective values) is bit-for-bit reproducible within and across objects and independent of NumPy's global random state, different seeds draw different resamples, and estimates without noise are deterministic without any seed.",
  IC + ["histories"], "all measures with a seed x approaches x seeds x global random states",
  "Tests fix a seed but never perturb global state or compare different seeds systematically.",
  [E + "mixins.py", E + "mutual_information/", E + "transfer_entropy/"],
  [("private generator from the seed", "estimators/mixins.py RandomGeneratorMixin")])

p("C09", "Concurrent use from several threads does not change any result",
  "When several threads evaluate any mix of measures and approaches on their own or shared input data at the same time, including statistical tests and different logarithm bases passed explicitly, every call returns exactly what it returns when run alone.",
  ["schedules", "inputs", "configurations"], "all interleavings of concurrent API calls on separate estimator objects",
  "Tests are single-threaded.",
  [E + "base.py", E + "functional.py", E + "entropy/nsb.py", E + "entropy/zhang.py", E + "utils/ordinal.py", "infomeasure/utils/config.py"],
  [("no shared mutable state apart from caches and configuration", "estimators/")])

p("C10", "Worker count changes speed, not results",
  "For every kernel measure and the kNN measures that accept it, evaluating with any number of workers (including -1) gives the same global and local values as with one worker, also for samples large enough for the work to be really distributed.",
  IC + ["schedules"], "samples below and above the parallelization threshold x workers x kernels x measures",
  "Tests exercise tiny samples where the parallel path is rarely entered.",
  [E + "utils/kde.py", E + "mixins.py"],
  [("chunked pool evaluation", "estimators/utils/kde.py parallel_kde_evaluate")])

p("C11", "Invalid arguments are rejected with an error, never a number",
  "Missing data, mismatched lengths, offsets or propagation times that are not admissible, non-positive or non-integer k, history lengths, embedding dimensions or step sizes, negative bandwidths, unknown kernels, priors, approaches, measures, units, settings, test methods or test counts, a missing or misplaced condition, and too-short series raise an exception (ValueError, TypeError, KeyError or a documented error) and return no value; logarithm bases and prior support sizes are not part of this guarantee.",
  IC, "all documented invalid argument classes x measures x approaches",
  "Tests cover a selection of invalid values per function.",
  [E + "functional.py", E + "base.py", E + "utils/te_slicing.py", E + "utils/ordinal.py", "infomeasure/utils/config.py", E + "mixins.py", "infomeasure/utils/data.py"],
  [("argument validation", "constructors and functional interface")])

p("C12", "Configuration behaves as a validated key-value store",
  "After any sequence of set, set_logarithmic_unit, reset and get operations, get returns the last successfully set value or the default, a rejected operation changes nothing, reset restores exactly the documented defaults (base e, permutation test, 200 tests), unit names in any case map to bases 2, e and 10 and back, and the settings take effect on later calls.",
  ["histories", "inputs"], "all sequences of configuration operations with valid and invalid arguments",
  "Tests check single operations, not sequences.",
  ["infomeasure/utils/config.py"],
  [("class-level settings with validation", "utils/config.py Config")],
  state=[dict(name="Config._settings", meaning="current settings", where="infomeasure/utils/config.py")])

p("C13", "Effective transfer entropy is the value minus one surrogate",
  "For every approach with transfer entropy, effective_val(method) equals the global value minus the measure of one permuted (or bootstrapped) source surrogate, is the same through the functional interface's effective estimator object and does not change the object's global or local values; with one informative source of strong coupling it is close to the global value.",
  IC, "all TE approaches x parameters x methods x seeds",
  "Tests pin a few seeded values.",
  [E + "mixins.py", E + "base.py", E + "utils/te_slicing.py"],
  [("surrogate from the test machinery", "estimators/mixins.py EffectiveValueMixin")])

p("C14", "Degenerate but valid inputs give scalar results without surprises",
  "For every approach, degenerate valid inputs (a single state, all distinct states, two observations, one more sample than k, duplicated points with noise, extremely large or small magnitudes, long series) give a real scalar and the value of the formula (0 for constants under plug-in approaches, NaN for NSB and ANSB without coincidences) rather than an exception, a complex number, an array or an unexplained NaN.",
  IC, "all degenerate valid inputs x measures x approaches",
  "Tests avoid most boundary sizes and magnitudes.",
  [E + "base.py", E + "entropy/", E + "mutual_information/", E + "transfer_entropy/"],
  [("result type handling", "estimators/base.py Estimator.calculate")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
