"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DB = "pysgmcmc/data_batches.py"; TU = "pysgmcmc/tensor_utils.py"; BC = "pysgmcmc/samplers/base_classes.py"
SG = "pysgmcmc/samplers/sghmc.py"; LD = "pysgmcmc/samplers/sgld.py"; RE = "pysgmcmc/samplers/relativistic_sghmc.py"
SV = "pysgmcmc/samplers/svgd.py"; SA = "pysgmcmc/sampling.py"; ST = "pysgmcmc/stepsize_schedules.py"
BN = "pysgmcmc/models/bayesian_neural_network.py"; BM = "pysgmcmc/models/base_model.py"
SC = "pysgmcmc/diagnostics/sample_chains.py"; DG = "pysgmcmc/diagnostics/sampler_diagnostics.py"; OF = "pysgmcmc/diagnostics/objective_functions.py"

p("D01", "Minibatches are aligned contiguous windows of the dataset",
  "Every minibatch the batch generator yields feeds exactly the two given placeholders: the inputs are min(batch size, N) consecutive rows of the dataset and the labels are the labels of exactly those rows, in the same order, as one column. Every window that fits into the dataset can be drawn and no other, and a dataset that is not larger than the batch size is always yielded whole and in order. The caller's arrays are never modified.",
  ["inputs", "histories"], "all datasets (any N >= 1, any number of features), all batch sizes, all seeds, every batch of the infinite stream",
  "The existing tests draw a handful of batches from sampled datasets and check shapes and membership; the guarantee is about every start index of every batch of an infinite stream for every N and batch size.",
  [DB], [("window start drawn from [0, N-b]", "generate_batches"), ("same slice taken from inputs and labels", "generate_batches")])
p("D02", "Seeded batch streams are reproducible and leave the global RNG alone",
  "With a seed, the stream of minibatches is a function of the data, the batch size and the seed only: the window starts are successive uniform draws of a private generator seeded with that seed. Creating or consuming a seeded stream neither reads nor changes the global numpy random state, so interleaving two streams does not change either of them. Without a seed, one is drawn from the global random state.",
  ["inputs", "histories"], "all seeds accepted, all datasets and batch sizes, all interleavings of several streams and of other users of the global generator",
  "A test compares two streams for a few seeds; that no draw ever depends on the global generator or on another stream is a statement about every history.",
  [DB], [("private RandomState seeded once", "generate_batches"), ("private RandomStates for shuffling", "generate_shuffled_batches")])
p("D03", "Invalid minibatch arguments are rejected before any batch is produced",
  "A batch size that is not an integer or not positive, a seed that is neither absent nor an integer in [0, 2^32-1], or data whose numbers of inputs and labels differ make the batch generator raise an assertion error before any batch is yielded, and the shuffled generator raise an error before any batch is yielded. All other arguments are accepted.",
  ["inputs"], "all values of batch size and seed of any type, all pairs of dataset lengths",
  "The tests try sampled wrong values; the accept/reject boundary is over all integers and types.",
  [DB], [("argument assertions", "generate_batches")])
p("D04", "Shuffled minibatches keep each row with its label and never touch the data",
  "Every batch of the shuffled generator contains the same rows as the batch the unshuffled generator yields for that seed, in a possibly different order, and each row stays paired with its own label. Neither the caller's arrays nor batches yielded earlier are changed by producing further batches. With a seed, the orders are a function of the seed only.",
  ["inputs", "histories"], "all datasets, batch sizes, seeds, and every batch of the stream",
  "Tests look at a few batches of a few datasets; aliasing between batches and the caller's arrays and pairing after many shuffles quantify over whole histories.",
  [DB], [("two equally seeded generators shuffle inputs and labels", "generate_shuffled_batches")])

p("S01", "One SGHMC step computes the documented scale-adapted SGHMC update",
  "For each target parameter and element one step maps the state (parameter, momentum V, mass estimates tau, g, v) with gradient G of the cost at the old parameters, stepsize e, momentum decay m, noise N~N(0,1) and gradient scale s to: r=1/(tau+1), tau'=tau+1-g*g*tau/v, M=1/sqrt(v), g'=g-r*g+r*G, v'=v-r*v+r*G^2, V'=V-e^2*M*G-m*V+sigma*N, parameter'=parameter+V' (divisions and roots guarded against zero and negative arguments). Here sigma^2=max(2*(e/sqrt(s))^2*m*M-(e/sqrt(s))^4, 1e-16), where M is the fed mass estimate after burn-in. tau, g and v start at 1, V at 0, and no other parameter's state enters.",
  ["inputs", "histories"], "all cost functions, parameter values, shapes and numbers of parameters, all sampler states, stepsizes and hyperparameters, every step",
  "The tests only check that a sampler can be constructed (and most sampler tests cannot run here); that each step applies the update to every element of every parameter is a statement over all states and shapes.",
  [SG, BC, TU], [("graph of assign operations", "SGHMCSampler.__init__"), ("noise", "MCMCSampler._draw_noise_sample")],
  [("tau,g,v_hat,minv,V", "adapted mass estimates and momentum", "SGHMCSampler.__init__")], ["sample returned by next(sampler)", "values of the target variables"])
p("S02", "One SGLD step computes the documented preconditioned SGLD update",
  "For each target parameter and element one step maps the state (parameter, tau, g, v) with gradient G at the old parameters, stepsize e, constant A, gradient scale s and noise N~N(0,1) to: r=1/(tau+1), tau'=tau+1-g*g*tau/v, M=1/sqrt(v), g'=g-r*g+r*G, v'=v-r*v+r*G^2, parameter'=parameter-e*M*A*G+sqrt(2*e*M*A/s)*N (divisions and roots guarded against zero and negative arguments). M is the fed mass estimate after burn-in; tau, g and v start at 1, and no other parameter's state enters.",
  ["inputs", "histories"], "all cost functions, parameter values, shapes and numbers of parameters, all states, stepsizes and hyperparameters, every step",
  "No existing test looks at the values of an SGLD step.",
  [LD, BC, TU], [("graph of assign operations", "SGLDSampler.__init__"), ("noise", "MCMCSampler._draw_noise_sample")])
p("S03", "One relativistic SGHMC step computes the published update",
  "For each target parameter and element one step maps momentum p and parameter x with G the gradient of the log likelihood (the negated cost) at the old parameters, stepsize e, mass m, speed of light c, diffusion D, noise estimate B and N~N(0,1) to p'=p+e*G-D*e*p/(m*sqrt(p^2/(m^2 c^2)+1))+sqrt(e*(2D-e*B))*N and x'=x+e*p'/(m*sqrt(p'^2/(m^2 c^2)+1)). Initial momenta are drawn, one for each element, from the log density -m*c^2*sqrt(p^2/(m^2 c^2)+1).",
  ["inputs", "histories"], "all cost functions, parameter values, shapes and numbers of parameters, momenta, stepsizes and constants, every step",
  "No existing test looks at the values of a step of this sampler.",
  [RE, BC], [("graph of assign operations", "RelativisticSGHMCSampler.__init__"), ("adaptive rejection sampling of the momentum", "_sample_relativistic_momentum")])
p("S04", "One SVGD step moves all particles by the kernelised Stein direction",
  "With n particles X, their pairwise squared distances D2, bandwidth h^2=0.5*median(D2)/log(n+1), kernel K=exp(-D2/(2 h^2)) and cost gradients G, the step direction is g=(K*G-dK)/n with dK_i=sum_j K_ij (X_i-X_j)/h^2, so that a zero cost gradient makes particles repel each other. The squared direction is accumulated as H'=alpha*H+(1-alpha)*g^2 starting from H=0, and every particle becomes X-e*g/(fudge+sqrt(H')). All particles are updated from the same old particles, costs are evaluated one particle at a time, and all particles are returned.",
  ["inputs", "histories"], "all costs, all numbers (>=2) and positions of particles of any dimension, all stepsizes and hyperparameters, every step",
  "No existing test looks at the values of an SVGD step.",
  [SV, TU], [("kernel", "SVGDSampler.svgd_kernel"), ("graph of assign operations", "SVGDSampler.__init__")])
p("S05", "A sampler step has one result, whatever order the runtime executes ops in",
  "For given sampler state, batch, stepsize and noise, every execution order that the constructed graph allows yields the same new state, sample and cost: each operation that reads a state variable or target parameter is ordered before or after every write to it. In particular cost and gradients of all parameters are evaluated at the old parameters, before any parameter is overwritten.",
  ["schedules", "inputs"], "all orders of op execution the dataflow graph permits, all costs, any number of parameters, the four samplers",
  "A test observes the schedules one executor happens to choose; a missing control dependency usually shows only on another machine or thread count.",
  [SG, LD, RE, SV, TU], [("control dependencies between assigns", "sampler constructors"), ("gradients gated on cost", "sampler constructors")])
p("S06", "Each step uses exactly one batch, one stepsize and one graph evaluation",
  "Every step, during burn-in and after it, draws exactly one batch from the batch generator (none if there is none) and one stepsize from the schedule, in stream order, and evaluates the sampler once with exactly these plus whatever the caller fed explicitly. The cost returned is the one evaluated in that step, the stepsize schedule is then informed exactly once with the sample and cost returned, and the step counter grows by one.",
  ["histories", "inputs"], "all batch generators, schedules, caller-supplied feeds, burn-in lengths and every step index",
  "Existing tests never observe what a step feeds; skipping or double-drawing batches at the burn-in boundary is invisible to them.",
  [BC], [("step", "MCMCSampler.__next__"), ("burn-in step", "BurnInMCMCSampler.__next__"), ("next batch", "MCMCSampler._next_batch"), ("next stepsize", "MCMCSampler._next_stepsize")],
  [("n_iterations", "steps performed", "MCMCSampler")])
p("S07", "Mass adaptation runs for exactly the configured burn-in, then stays frozen",
  "Exactly the first burn-in-steps steps of a burn-in sampler adapt the inverse mass estimate and keep the estimate of the latest such step. Every later step uses the estimate of the last burn-in step for each parameter, unchanged; with no burn-in no estimate is fed. The sampler reports that it is burning in exactly while fewer than that many steps were performed.",
  ["histories", "inputs"], "all burn-in lengths >= 0, all histories of steps, any number of parameters",
  "Whether the estimate is really frozen, for every step after burn-in and for each parameter its own, cannot be sampled by constructor tests.",
  [BC, SG, LD], [("phase switch", "BurnInMCMCSampler.is_burning_in"), ("feeding the frozen estimate", "BurnInMCMCSampler.__next__")],
  [("minv", "latest adapted inverse mass", "BurnInMCMCSampler")])
p("S08", "Every sampler uses the stepsize schedule it was given",
  "For each of the four samplers the stepsize of step k is the k-th value of the schedule passed by the caller, fed into the variable the update formula uses, and the initial value of that schedule initialises it. A constant schedule yields its value forever, whatever updates it receives.",
  ["histories", "inputs"], "all schedules, all samplers, every step",
  "No test runs a sampler with a non-default schedule and looks at the step it makes.",
  [BC, SG, LD, RE, SV, ST], [("schedule stored and fed", "MCMCSampler.__init__, MCMCSampler._next_stepsize"), ("schedule forwarded to the base class", "sampler constructors"), ("constant schedule", "ConstantStepsizeSchedule")])
p("S09", "Samples have one value per parameter, in order and in the parameter's shape",
  "Every step returns one array for each target parameter, in the order and with the shape of the parameters, equal to the value that parameter has after the step; with a single parameter the bare array is returned instead of a list. This format is the same during and after burn-in.",
  ["inputs", "histories"], "any number >= 1 of parameters of any shapes, every step of the four samplers",
  "Shape and order consistency over all parameter lists and across the burn-in boundary is not what any test samples.",
  [BC, SG, LD, RE, SV, TU], [("unravelling single samples", "MCMCSampler.__next__, BurnInMCMCSampler.__next__"), ("assigning reshaped vectors back", "sampler constructors")])
p("S10", "Noise is standard normal and independent for every element of every parameter",
  "In each step the noise of a parameter is drawn afresh with one standard normal value for each of its elements, scaled by the standard deviation of the update, in the sampler's precision. No two parameters (or steps) share the same random stream, with or without a seed, and with a seed the streams are a function of that seed.",
  ["inputs", "configurations", "histories"], "all seeds (or none), any number and shapes of parameters, the three samplers with noise",
  "Tests never compare the noise of two parameters; correlated noise leaves every shape and type intact.",
  [BC, SG, LD, RE], [("noise op with its seed", "MCMCSampler._draw_noise_sample")])
p("S11", "Constructing a sampler initialises only what was not initialised yet",
  "Constructing a sampler initialises exactly those target parameters that are not yet initialised in its session: values the caller assigned before construction are kept. Every step starts from the values the parameters have at that moment, also if they were assigned or initialised again after construction. The helper that reports uninitialised variables returns exactly the uninitialised ones of the given list, in order.",
  ["inputs", "histories"], "all lists of variables with any initialisation pattern",
  "Only a few patterns are tested; the guarantee is over every subset of initialised variables.",
  [TU, BC], [("initialisation flags zipped with the variables", "uninitialized_params"), ("initialiser restricted to the uninitialised", "MCMCSampler.__init__")])

p("T01", "Guarded division never divides by zero and stays close to the quotient",
  "The guarded quotient of x and y with small constant c>0 is x divided by a denominator that is never zero, has the sign of y (positive for y=0) and differs from y by at most 3c. It is applied element by element, and no finite float32 or float64 y yields a zero denominator for the default constant.",
  ["inputs"], "all real (and all finite float32 and float64) x, y and c>0",
  "Doctests try two denominators.", [TU], [("sign-aware constant added to the denominator", "safe_divide")])
p("T02", "Guarded square root is the root of the clipped argument",
  "The guarded square root returns, element by element, the square root of its argument clipped to the given bounds: zero for negative arguments by default and the exact root for all non-negative ones.",
  ["inputs"], "all real arguments and all bounds 0 <= min <= max",
  "A doctest tries one value.", [TU], [("clip before sqrt", "safe_sqrt")])
p("T03", "Median is the middle value, or the mean of the two middle values",
  "For a tensor of any shape with n >= 1 elements the median is the element with rank (n-1)/2 in sorted order when n is odd and the mean of those with ranks n/2-1 and n/2 when n is even.",
  ["inputs"], "all sizes n >= 1 and all contents, including ties",
  "Tests compare with numpy on sampled arrays; correctness is over all sizes and orderings.", [TU], [("descending top-k and middle index", "median")])
p("T04", "Pairwise distances and their square form agree with the definition",
  "For m rows the condensed distances list the Euclidean distances of rows i<j in lexicographic order. The square form of a condensed vector of m(m-1)/2 values is the symmetric m by m matrix with zero diagonal that has exactly those values at (i,j) and (j,i); vectors of other lengths are rejected, as are inputs of the wrong rank or metric.",
  ["inputs"], "all numbers of rows m, all dimensions and contents",
  "Tests sample small matrices; index arithmetic has to be right for all m.", [TU], [("double loop over pairs", "pdist"), ("dynamic stitch of three index sets", "squareform")])
p("T05", "Vectorising and restoring a tensor is lossless for every shape",
  "Vectorising a tensor or variable yields a column with one row per element in row-major order, and reshaping it back to the original shape restores the tensor exactly, also for scalars. Vectorising a variable yields a new variable that starts at the variable's initial value, and other inputs are rejected.",
  ["inputs"], "all ranks and shapes (including scalars), all contents, variables and tensors",
  "Tests round-trip sampled shapes of one or two ranks.", [TU], [("reshape to (n, 1)", "vectorize"), ("reshape to the original shape", "unvectorize")])

p("F01", "The sampler factory passes each argument or default through unchanged",
  "For each of the four methods the factory constructs that method's sampler, passing every keyword argument under its own name and value, and the constructor's own default for every argument not given. Arguments the constructor does not know, missing required arguments and unknown methods are rejected with a value error, before anything is constructed. Only the two adaptive methods are reported as burn-in methods.",
  ["inputs", "configurations"], "all subsets of keyword arguments with any values, all methods",
  "Doctests build a few samplers; the mapping is over every combination of given and omitted arguments.", [SA], [("signature introspection", "Sampler.get_sampler"), ("burn-in classification", "Sampler.is_burn_in_mcmc")])

p("M01", "Invalid network configurations are rejected at construction",
  "Constructing a Bayesian neural network succeeds exactly if the numbers of networks, iterations, sample steps and the batch size are positive integers, the number of burn-in steps is a non-negative integer, the data type is a tensor type, network and batch generator are callable, the stepsize schedule can be advanced and updated, and the sampling method is supported. Otherwise it raises an assertion or value error, and a constructed network remembers each setting under its own name.",
  ["inputs", "configurations"], "all values of any type for every constructor argument",
  "Tests try sampled wrong values for some arguments.", [BN, SA], [("argument assertions", "BayesianNeuralNetwork.__init__")])
p("M02", "Training collects exactly the scheduled networks after burn-in",
  "Training collects the sampled parameters of exactly those sampler iterations whose index (counted from 0) exceeds the number of burn-in steps and is a multiple of the sample interval, in order, and stops as soon as the requested number of networks is collected or the iterations are exhausted. Samples of an earlier training run are discarded first.",
  ["inputs", "histories", "configurations"], "all iteration counts, burn-in lengths, sample intervals, numbers of networks, and repeated trainings",
  "Training tests cannot run here (and sample one configuration where they do); the boundaries quantify over all configurations.", [BN], [("collection loop", "BayesianNeuralNetwork.train")],
  [("samples", "collected networks", "BayesianNeuralNetwork")])
p("M03", "Predictions are the mean and spread of the collected networks' outputs",
  "With collected networks k=1..K whose outputs on the identically normalised test inputs are mean f_k and log noise variance l_k, prediction returns the average of the f_k and the average of (f_k - average)^2 mapped back to the original output scale (mean: times the training std plus the training mean; variance: times the squared std). The individual predictions are each f_k and exp(l_k) mapped back in the same way, one row per network in collection order. Predicting before training raises a value error.",
  ["inputs", "histories", "configurations"], "all networks, test inputs, numbers of collected samples, with and without input and output normalisation",
  "The prediction tests cannot run here and compare only shapes or one fit.", [BN, BM], [("aggregation", "BayesianNeuralNetwork.predict"), ("feeding sampled parameters", "BayesianNeuralNetwork.compute_network_output")])
p("M04", "The training objective is the stated Gaussian likelihood plus scaled priors",
  "For a batch of labels y and network outputs (f, l) the objective is -(1/b * sum(-(y-f)^2/(2*(exp(l)+1e-16)) - l/2) + P/N + W/N), with b the configured batch size and N the dataset size. P is the mean over the batch of -(l-log 1e-6)^2/(2*0.01)-0.5*log 0.01 and W is -0.5*sum of all squared trainable weights divided by their number; the reported error is the mean of (y-f)^2.",
  ["inputs"], "all network outputs, labels, batch and dataset sizes, any number and shapes of weights",
  "No test computes the objective for given outputs.", [BN, TU], [("likelihood", "BayesianNeuralNetwork.negative_log_likelihood"), ("priors", "log_variance_prior_log_like, weight_prior_log_like")])
p("M05", "Normalising and then unnormalising restores the data",
  "Zero-mean/unit-variance and zero-one normalisation use the statistics of the data column by column unless given, return the statistics they used, and the matching inverse with these restores the original data whenever no column is constant. Zero-one normalised data lie in [0,1] when the statistics are the data's own.",
  ["inputs"], "all data sets, with own or given statistics",
  "No existing test touches the normalisation helpers on their own.", [BM], [("normalisation pairs", "zero_one_normalization, zero_mean_unit_var_normalization and their inverses")])
p("M06", "Model updates retrain on old and new data; the incumbent is the best point",
  "Updating a model trains it on exactly the old data followed by the new data, rows and labels kept paired. The incumbent is the observed point with the smallest label together with that label, and the serialised form holds exactly the current data (or nothing before any data). Inputs that are not two-dimensional are rejected by training and prediction.",
  ["inputs", "histories"], "all datasets and update sequences",
  "No existing test exercises updates or incumbents.", [BM], [("append and retrain", "BaseModel.update"), ("arg min", "BaseModel.get_incumbent"), ("shape checks", "BaseModel._check_shapes_predict, BaseModel._check_shapes_train")])
p("M07", "Training samples the network posterior under the configured settings",
  "Training runs the configured sampler on all trainable variables there are once the network is built, with the training objective as cost, minibatches of the (normalised, if requested) training data of the configured batch size, and the network's own seed, session, precision and stepsize schedule. Adaptive samplers get the number of training points as gradient scale and the configured burn-in length. Extra sampler options given at construction reach the sampler unchanged, and all variables are initialised before the first step.",
  ["inputs", "configurations"], "all settings, datasets, sampler options and repeated trainings",
  "Training tests cannot run here and never inspect the sampler that was built.", [BN, SA], [("sampler arguments", "BayesianNeuralNetwork.train")])

p("G01", "Traces return the recorded values by variable, iteration and slice",
  "A trace of S samples of V variables returns for each variable name the values recorded for that variable in iteration order, after dropping the first burn ones and keeping every thin-th; indexing by position agrees with indexing by name, a point is the name-to-value map of one iteration, slicing keeps exactly the sliced variables with all iterations, and its length is S. Unknown names raise a value error, and empty or wrongly named traces are rejected.",
  ["inputs"], "all sample lists, names, burn, thin, indices and slices",
  "The trace tests cannot be imported here, and sample a few fixed traces.", [SC], [("accessors", "PYSGMCMCTrace")])
p("G02", "Traces built from samplers are thinned as asked, named and independent",
  "A trace built from a sampler contains the requested number of samples, consecutive ones being exactly the thinning interval apart in the sampler's own sequence, in order, starting with its next sample, and is named after the parameters unless names are given. A multi-chain trace builds each chain from its own fresh sampler in a graph and session of its own, with distinct chain ids, initialised variables and the requested length, thinning and names. The diagnostics are computed on exactly such a multi-chain trace.",
  ["inputs", "histories", "configurations"], "all sample counts, thinning intervals, numbers of chains and parameters",
  "These tests cannot be imported here, and never check which iterations are kept.", [SC, DG], [("thinning", "PYSGMCMCTrace.from_sampler"), ("chains", "pymc3_multitrace"), ("diagnostics", "_pymc3_diagnostic")])
p("G03", "Target densities and benchmark functions equal their published formulas",
  "The banana and Gaussian mixture log likelihoods, for numbers as well as tensors, and the benchmark functions (sinc, Bohachevsky, Branin, Camelback, Goldstein-Price, Hartmann 3 and 6, Levy, Rosenbrock, the two sine functions) equal their published formulas everywhere. Negating a log likelihood returns exactly its negative for all arguments and keeps its name.",
  ["inputs"], "all real arguments; for the mixtures all means, variances and weights",
  "Doctests evaluate the known optima only (and cannot be collected here).", [OF], [("formulas", "objective_functions"), ("negation wrapper", "to_negative_log_likelihood")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
