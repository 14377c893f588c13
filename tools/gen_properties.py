"""Writes /verif/properties.jsonl (one property per line).  Run by hand after editing."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))


G = "stheno/model/gp.py"; M = "stheno/model/measure.py"; O = "stheno/model/observations.py"
F = "stheno/model/fdd.py"; L = "stheno/lazy.py"; R = "stheno/random.py"
K = "stheno/mo/kernel.py"; MM = "stheno/mo/mean.py"; I = "stheno/mo/infer.py"; IN = "stheno/mo/input.py"; A = "stheno/mo/adk.py"

prop("C01", "Composed processes have the exact joint distribution",
     "For every model built by adding, subtracting, negating, scaling, dividing, multiplying by functions, shifting, stretching, transforming or selecting the inputs of processes, "
     "the mean of every process and the covariance between every pair of processes of the measure are exactly those of the corresponding linear transformation of the independent base processes. "
     "Covariances are consistent in both argument orders, k(p,q)(x,y) = k(q,p)(y,x)^T, and element-wise evaluation is the diagonal of pairwise evaluation.",
     ["programs", "inputs"], "all sequences of model-building operations, over all pairs of resulting processes and all inputs",
     "tests check a handful of single operations and never the cross-covariances of chained operations in both argument orders",
     [G, M, L, "stheno/random.py"],
     [("per-operation mean/kernel/left rule", M + ": sum, mul, shift, stretch, select, transform, _update, add_gp"), ("operator overloads", G + ": __add__, __mul__, shift, ...; " + R + ": Random")],
     [("means/kernels", "lazily filled tables of a measure", M)], ["Measure.means[p](x)", "Measure.kernels[p, q](x, y)", "kernel.elwise", "p(x).mean/.var"])

prop("C02", "Conditioning is exact Gaussian conditioning, in every history",
     "Under the measure obtained by conditioning on observations (including processes combined before or after conditioning, repeated conditioning, and posteriors extended with new processes), the mean of every process and the covariance between every pair equal those of the exact Gaussian conditional of the prior joint distribution. "
     "Every spelling of the same conditioning (| or condition, on a measure or on a process, one pair or several, explicit observation objects) gives the same posterior. "
     "Processes created independently in a posterior stay independent of what was conditioned on.",
     ["histories", "programs", "inputs"], "all histories of model building and conditioning steps, all spellings, all pairs of processes",
     "tests condition simple models once or twice and mostly compare spellings with each other",
     [M, O, G], [("posterior rules", M + ": condition, __call__"), ("posterior mean/kernel", O + ": Observations.posterior_kernel, posterior_mean, K_x"), ("combine", O + ": combine")],
     [("posterior tables", "universal rules built lazily from the prior measure", M)], ["post(p)(x).mean_var", "post.kernels[p, q]", "post(p(x))", "(p | obs)"])

prop("C03", "Evidence and posteriors do not depend on how data are split or ordered",
     "For any set of observations of processes in one measure, the joint log-density equals the sum of the log-densities of the parts, each evaluated under the measure conditioned on the parts before it, for every ordering and every partition. "
     "Conditioning step by step on the parts, in any order and grouping, gives the same posterior as conditioning once on everything. "
     "The log-density of data under a measure is the same in every way of asking for it.",
     ["histories", "inputs"], "all ordered partitions of observation sets and all query spellings",
     "one test multiplies out one order of three observations",
     [M, O, R], [("joint log-density", M + ": logpdf"), ("conditioning chain", M + ": condition"), ("combination of observations", O + ": combine")],
     (), ["Measure.logpdf", "FDD.logpdf", "posterior mean/covariance"])

prop("C04", "No operation changes an existing distribution",
     "Building further processes, conditioning, evaluating, sampling, computing log-densities, naming or looking values up never changes the mean, covariance or cross-covariance of any process that already existed, under any measure it belonged to; conditioning leaves the prior untouched. "
     "The answer to a query does not depend on which other queries were made before it or in what order, nor on whether it was first asked before or after the model was extended.",
     ["histories"], "all sequences of builds, conditionings and queries, compared with the same query on a fresh replica",
     "tests query each model once, right after building it",
     [M, L, O, F, R], [("write-once lazy tables", L + ": _get"), ("snapshots of rule domains", L + ": add_rule, add_left_rule, add_right_rule"), ("posterior copies the process list", M + ": condition")],
     [("lazy stores, observation caches", "memoised values", L + ", " + O)], ["Measure.means", "Measure.kernels", "FDD mean/var"])

prop("C05", "Processes belong to the right measures and measures never mix",
     "The measure reported by a process is the one it was constructed with, whatever is conditioned afterwards; a process combined from others exists under exactly the measures that all its parts share, and reports the one its parts were constructed with. "
     "Combining processes of different measures (sums, products, Cartesian products, joint observations), or conditioning a measure on observations of a process of another measure, raises an AssertionError and changes nothing, and asking a measure about a process it does not contain raises an error instead of giving an answer. "
     "A process made in or mapped to a posterior belongs only to that posterior.",
     ["histories"], "all sequences of constructions, conditionings and combinations, for any number of measures and any memory layout of the objects involved",
     "one test with two measures; with more posteriors the outcome can depend on object addresses",
     [G, M], [("measure groups", G + ": assert_same_measure, intersection_measure_group, GP.measure"), ("registration", M + ": _add_p, condition")],
     [("_measures of a process", "ordered measures a process belongs to", G)], ["GP.measure", "measure(p)", "AssertionError/RuntimeError"])

prop("C06", "The default measure is scoped exactly by with-blocks",
     "A process constructed without an explicit measure joins the measure of the innermost open with-block, or a fresh measure of its own if none is open; an explicit measure always wins. "
     "Leaving a block, normally or by an exception, restores exactly the default that was in force when it was entered, for any nesting, including re-entering a measure that is already open or was used before.",
     ["histories"], "all nested enter/exit/raise/construct sequences over a set of measures",
     "one test nests two distinct measures once and never raises or re-enters",
     [M, G], [("context manager", M + ": __enter__, __exit__"), ("default lookup", G + ": GP.__init__")],
     [("Measure.default", "global default measure", M)], ["GP(...).measure"])

prop("C07", "Names are a two-way dictionary and failed naming changes nothing",
     "In every measure, process-to-name and name-to-process lookups are inverse to each other at all times: a process has at most one name, a name at most one process, and renaming frees the old name. "
     "Assigning a name that is already used by another process raises an error and leaves all names in all measures as they were; looking up an absent name or an unnamed process raises a KeyError. "
     "Setting the name of a process sets it in every measure the process belongs to.",
     ["histories"], "all sequences of naming, renaming, failing renames and conditionings over several processes and measures",
     "one test follows one path and never looks at the state after a failed rename",
     [M, G], [("name dictionaries", M + ": name, __getitem__"), ("name property", G + ": GP.name")],
     [("name maps", "two dictionaries kept in step", M)], ["measure[name]", "measure[p]", "p.name"])

prop("C08", "Lazy vectors and matrices behave like write-once tables with rules",
     "An element of a lazy vector or matrix is the value last assigned to it, or else the value built by the first applicable rule at the time it was first looked up (universal rules before left rules before right rules, in order of addition), and then stays that same object whatever rules are added later. "
     "Indices are resolved by identity for objects and by value for integers, a single index of a matrix means its diagonal element, and rule domains are fixed when a rule is added. "
     "Looking up an element that no rule covers, or whose builder fails, raises, stores nothing and leaves later lookups unaffected.",
     ["histories"], "all sequences of assignments, rule additions and lookups over a small set of indices",
     "tests build a few tables in one order each; interleavings of assignment, rules and lookups are not covered",
     [L], [("store then build", L + ": _get, _build, _resolve_index, _expand_key")],
     [("_store, rule lists", "values and rules of a table", L)], ["v[i]", "m[i, j]", "builder calls"])

prop("C09", "Views of a distribution agree in every access order",
     "However a normal distribution or finite-dimensional distribution was given (values, structured matrices, functions, with or without joint constructors, zero mean omitted or not), its mean, variance, variance diagonal, joint mean and variance, marginals, credible bounds, zero-mean flag, second moment, dimension and data type are consistent with one mean vector and one covariance matrix, in every order in which they are asked for. "
     "Means are column vectors, marginal means and variances are vectors of that dimension, marginal variances are never negative, and asking again returns the same answer.",
     ["histories", "inputs"], "all access orders of all views, for all ways of constructing the distribution",
     "tests probe some orders of three views with placeholder values",
     [R, F], [("lazy resolution", R + ": _resolve_mean, _resolve_var, _resolve_var_diag, mean_var, marginals"), ("joint constructors", F + ": var_diag, mean_var, mean_var_diag")],
     [("_mean, _var, _var_diag", "lazily resolved parameters", R)], ["Normal.mean/.var/.var_diag/.mean_var/.marginals()/..."])

prop("C10", "Gaussian quantities and arithmetic are exact",
     "For every normal distribution, whatever the structure of its mean and covariance (dense, diagonal, zero, constant-plus-diagonal, low-rank-plus-diagonal, Kronecker), the log-density, entropy, Kullback-Leibler divergence, 2-Wasserstein distance, second moment, marginals, credible bounds and diagonalisation equal their textbook values. "
     "Adding, subtracting, negating, scaling, dividing and multiplying by matrices from either side give the exact distribution of the transformed random vector. "
     "Log-densities of several columns are those of the columns, and a single column gives a scalar.",
     ["inputs", "configurations"], "all combinations of covariance structures, dimensions, data types and operations within the bound",
     "tests use one random dense 3-dimensional distribution, and check divergences by inequalities or Monte Carlo",
     [R], [("functionals", R + ": logpdf, entropy, kl, w2, m2, diagonalise"), ("arithmetic", R + ": __add__, __mul__, lmatmul, rmatmul, Random")],
     (), ["Normal methods"])

prop("C11", "Missing data mean exactly the absent observations",
     "Marking any subset of the observed values as NaN (none, some, all; in one or several joint observations; for single- or multi-output processes; for exact and inducing-point conditioning) gives the same posterior, log-density and evidence bound as leaving those observations out. "
     "Values, inputs and noise stay aligned, and with everything missing the posterior is the prior; missing values that cannot be selected (in plain inputs of processes derived from multi-output processes) are rejected instead of giving an answer.",
     ["inputs", "configurations"], "all missingness masks over all kinds of observations and noise",
     "one test marks the first three of ten values in one model; one marks one entry in a log-density",
     [O, F, R, K], [("masking of observations", O + ": AbstractObservations.__init__"), ("masking of a log-density", R + ": logpdf"), ("selection of inputs and noise", F + ": take, _take_x; " + K + ": _take_x")],
     (), ["posterior mean/covariance", "logpdf", "elbo"])

prop("C12", "Inducing-point approximations equal their defining formulas",
     "For the VFE, FITC and DTC approximations with any inducing points (of any process, of several processes, with or without noise on them) the approximate posterior mean and covariance of every process and the evidence bound equal the published closed forms; with inducing points at the data they coincide with exact inference, and the VFE bound never exceeds the log-evidence. "
     "One observations object gives the right answer for each measure it is used with, in any order of use. "
     "Observation noise that is not diagonal is rejected.",
     ["histories", "inputs", "configurations"], "all methods, inducing sets, observation sets and orders of use with several measures",
     "tests only use inducing points at the data, where all methods and most mistakes coincide",
     [O, M], [("approximation", O + ": AbstractPseudoObservations._compute, posterior_kernel, posterior_mean, elbo"), ("per-measure caches", O + ": _K_z, _elbo, _mu, _A")],
     [("_K_z, _elbo, _mu, _A", "caches per measure", O)], ["post(p)(x)", "obs.elbo(measure)", "measure.logpdf(obs)"])

prop("C13", "Multi-output processes are the block assembly of their parts",
     "For the Cartesian product of any processes (of one measure, prior or posterior, repeated or nested), evaluating means, covariances (pairwise and element-wise) and cross-covariances at plain inputs, at inputs tagged with an output, or at any nested tuple of these, gives exactly the blocks of the parts' means and covariances in the order of the inputs. "
     "Combining finite-dimensional distributions or observations stacks their inputs, noises and values in the given order.",
     ["programs", "inputs"], "all products up to a size and all nested input specifications up to a size, in both arguments",
     "tests evaluate a few two-argument combinations for one two-output kernel",
     [K, MM, IN, M, O, A], [("multi-output kernel", K + ": pairwise, elwise"), ("multi-output mean", MM + ": __call__"), ("tuple inputs", IN + ": pairwise, elwise"), ("Cartesian product", M + ": cross; " + G + ": cross"), ("combine", O + ": combine")],
     (), ["cross(...)(x).mean/.var", "kernel(x, y)", "kernel.elwise(x, y)", "combine(...)"])

prop("C14", "Samples have exactly the distribution's mean and covariance",
     "A sample is an affine function of the standard-normal draws taken from the random state whose offset is the mean and whose linear part reproduces the covariance, plus the requested extra noise variance; columns of several samples use disjoint draws. "
     "Joint samples are split among the requested processes in order with every process receiving all of its outputs, and are taken under the measure that was asked. "
     "The same random state always gives the same samples, an explicit state leaves the global one untouched, and sampling without a state advances the global one.",
     ["inputs", "configurations", "histories"], "all basis draws of the random source, all sampling spellings, all kinds of distributions",
     "tests compare Monte Carlo averages at 5% for one covariance, or use zero kernels",
     [R, M], [("sampling", R + ": sample"), ("joint sampling and splitting", M + ": sample")],
     [("global random state", "advanced by sampling without a state", R)], ["Normal.sample", "FDD.sample", "Measure.sample"])

prop("C15", "Batched computation equals computing each batch element",
     "For inputs with any leading batch dimensions, the means, covariances, variances, marginals, log-densities, posteriors, inducing-point posteriors and bounds, joint samples, divergences between distributions, second moments and multi-output evaluations are those obtained by treating every batch element on its own, with the batch dimensions in front.",
     ["configurations", "inputs", "programs"], "all batch shapes within the bound, all operations that take inputs",
     "tests check shapes of one batched model and one inequality",
     [F, M, O, R, MM, IN], [("batched linear algebra", R + ": logpdf, marginals; " + O + ": combine, _compute; " + M + ": sample")],
     (), ["mean/var/marginals/logpdf/posterior of batched inputs"])

prop("C16", "All backends and data types give the same answers",
     "Every computation (means, covariances, marginals, log-densities, divergences, posteriors, inducing-point bounds, missing data, sampling given the draws) gives the same values for NumPy, AutoGrad, TensorFlow, PyTorch and JAX inputs, in double or single precision within its accuracy, keeps results in the backend of its inputs and never lowers their precision (numbers given for noise or parameters do not change it), and differentiates correctly with respect to inputs, observations and model parameters. "
     "Integers as inputs, observations, noise, means or variances give the values of the equal floating-point numbers. Compiled (just-in-time) evaluation gives the same values as eager evaluation.",
     ["configurations", "inputs"], "all backends times data types times operations, eager, differentiated and compiled",
     "the tests run almost everything on NumPy in double precision only",
     [R, F, O, M, "stheno/torch.py", "stheno/tensorflow.py", "stheno/jax.py", "stheno/autograd.py"],
     [("backend-agnostic linear algebra and dtype handling", R + ": dtype, cast, logpdf; " + F + ": dtype, _noise_as_matrix; " + O + ": _compute")],
     (), ["values, gradients, framework types and dtypes of results"])

prop("C17", "Selecting from a distribution by a mask selects exactly those elements",
     "Taking a subset of a finite-dimensional distribution with any boolean mask, for single- or multi-output processes and any nested input specification, gives the distribution whose mean, covariance and noise are the masked elements in order, still attached to the same process. "
     "The noise keeps its structure; index lists instead of masks, inputs tagged with a process that is not an output, and inputs at which the outputs of the process are not known, are rejected.",
     ["inputs"], "all masks of all nested input specifications up to a size",
     "one test uses one random mask on one specification",
     [F, K], [("selection", F + ": take, _take_x; " + K + ": _take_x")], (), ["B.take(fdd, mask)"])

prop("C18", "Products match moments; derivative processes are derivatives",
     "The product of any two processes of a measure, independent, correlated or identical, has exactly the mean and covariance of the product of the two Gaussian processes, and its covariance with every other process of the measure that is not itself built from a product is the exact one; products have each other's covariances as moment-matched Gaussian processes. "
     "The derivative process in any input dimension has the derivative of the mean and the derivatives of the covariances, also with other processes and under conditioning, and the finite-difference derivative of any order approximates the same.",
     ["programs", "inputs"], "all pairs of processes from all built models, and derivatives of all of them",
     "tests check two products by sampling at 5% and one derivative by regression",
     [M, G], [("moment matching", M + ": mul"), ("derivative", M + ": diff; " + G + ": diff, diff_approx")], (), ["means and kernels of p * q, p.diff(i), p.diff_approx(...)"])

prop("C19", "Reported structure is truthful",
     "The inferred size of a process at any input specification is the actual number of rows it produces there, the inferred output dimensionality is that of the process through sums, products, warps, (repeated) conditioning and inducing points, and inconsistent or uninferable dimensionalities raise an error. "
     "The number of elements of an input is its actual count, and a process that reports being stationary has a covariance that is invariant under translation. "
     "The inputs, noise, process and data type reported by a finite-dimensional distribution are the ones it was built from.",
     ["programs", "inputs"], "all built models and all input specifications within the bound",
     "tests check a few hand-written kernels",
     [I, A, F, G], [("inference", I + ": infer_size, dimensionality, num_elements"), ("ambiguous kernels", A), ("FDD attributes", F)], (), ["infer_size", "dimensionality", "num_elements", "stationary", "FDD.x/.noise/.p"])

prop("C20", "Observation noise is applied once, to the right observations only",
     "The noise of a finite-dimensional distribution, given as nothing, a scalar, a vector, a matrix or a structured matrix, adds exactly that covariance to the values at its inputs in every view (variance, diagonal, joint, marginals, log-density, samples) and in every use (conditioning, joint observations, evaluation under another measure). "
     "It never becomes part of the process: the posterior and prior of the noise-free process, its cross-covariances and other distributions are without it, and all ways of writing the same noise give the same results.",
     ["configurations", "inputs"], "all noise representations times all uses times all processes",
     "tests check that representations agree for conditioning, and types of one helper",
     [F, O, M], [("noise as matrix", F + ": _noise_as_matrix, FDD"), ("data covariance", O + ": K_x, combine; " + M + ": __call__")], (), ["p(x, noise).var/.var_diag/.marginals()/.logpdf", "posterior"])

prop("C21", "Texts tell what a distribution is, and looking at it changes nothing",
     "The text of a process (str, repr, display) is GP(mean, kernel) with the mean and the kernel that the process has under its own measure, however the process was composed, and also after it was named, conditioned on or copied: read with the documented meaning of the operators, the text gives exactly the moments of the process. "
     "With a formatter, every value in the text is formatted by it, also in the parts of Cartesian products. A process without a measure is GP(). "
     "The text of a random vector shows the mean and the variance that are known and says unresolved for those that are not computed yet; the text of a finite-dimensional distribution shows its process, inputs and noise. "
     "Asking for a text never computes, changes or adds anything.",
     ["programs", "operation sequences"], "all sequences of operations that build a process and all sequences of queries of a random vector",
     "tests compare a few short texts with literals",
     [G, MM, K, R, F], [("text of processes", G + ": display"), ("multi-output parts", MM + ", " + K + ": render"), ("text of vectors", R + ": Normal.__str__, __repr__; " + F + ": FDD.__str__, __repr__")], (), ["str(p)", "p.display(formatter)", "str(Normal)", "repr(FDD)"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
