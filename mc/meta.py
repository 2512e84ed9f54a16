"""The properties, as stated, and what the manifest says about each check."""
NOT_CLAIMED = {}
DFS = "stateless exhaustive exploration of the real code: "
E_ = "simple_einet/einet.py"
LAY = ["simple_einet/layers/sum.py", "simple_einet/layers/linsum.py", "simple_einet/layers/einsum.py", "simple_einet/layers/mixing.py"]
LEAF = "simple_einet/layers/factorized_leaf.py"
DIST = "simple_einet/layers/distributions/"
TRUST = ("Exhaustive within the stated bounds on the real code (no model in between); trusts torch's arithmetic, the interception of "
         "random draws (which is checked: a draw that is not intercepted is an error), and the tolerance stated in DESIGN.md.")

PROPS = [
    dict(
        id="C01", title="Every model computes a normalised distribution",
        statement="For every accepted Einet configuration and all parameter values, the exponential of each class output of the "
                  "forward pass sums (discrete leaves) or integrates (continuous leaves) to one over all complete inputs.",
        over=["inputs", "configurations"],
        text="all complete inputs of small discrete domains (numeric integration for two continuous variables), every random structure, "
             "grid of leaf families, structures, layer types, depths, repetitions, channels, classes",
        why="The tests check normalisation for no model at all; a product over overlapping scopes, a wrong softmax axis or a misplaced "
            "permutation changes values a test cannot know without summing over every input.",
        files=[E_, LEAF] + LAY, mechanism=[("smooth, decomposable layers with normalised weights", E_),
                                           ("scope factorisation", LEAF), ("softmax projection of logits", "simple_einet/abstract_layers.py")],
        technique=DFS + "all inputs and all structural random draws", note=TRUST),
    dict(
        id="C02", title="Marginalised variables are summed out exactly",
        statement="A variable that is missing from an input, whether it is given as NaN or named in marginalized_scopes (any spelling or "
                  "order, whatever value stands there), contributes exactly as if it had been summed or integrated over its whole domain, for "
                  "every subset of variables; with everything missing the log-likelihood is zero. The forward pass never modifies the tensor it is given.",
        over=["inputs", "configurations"], text="every assignment of {values, missing} to all variables and channels, every subset of scopes, over the configuration grid",
        why="Tests marginalise one or two fixed subsets and compare shapes or finiteness; exactness is a relation between 2^D queries.",
        files=[E_, DIST + "abstract_leaf.py", LEAF], mechanism=[("marginalisation mask", DIST + "abstract_leaf.py")],
        technique=DFS + "the full lattice of partial assignments", note=TRUST),
    dict(
        id="C03", title="Unconditional samples follow the model's distribution",
        statement="Samples drawn without evidence are distributed exactly according to the density the forward pass computes (with several "
                  "classes: their uniform mixture), for every configuration, structure and parameter value, and the rows of one call are independent.",
        over=["inputs", "configurations", "histories"], text="every answer of every random draw (exact sampler distribution), every random structure of small models",
        why="A sampling test can only bound frequencies of a few draws of one model; a wrong branch index that keeps the shape is invisible to it.",
        files=[E_, LEAF, DIST + "abstract_leaf.py"] + LAY, mechanism=[("top-down index passing", LAY[1]), ("scope to group mapping in sampling", LEAF), ("class prior", E_)],
        technique=DFS + "DFS over all outcomes of all random draws, path probabilities compared with the density", note=TRUST),
    dict(
        id="C04", title="Samples given evidence follow the conditional distribution",
        statement="Given evidence with missing entries (NaN, or named by marginalized_scopes), the imputed values are distributed exactly as "
                  "the model's conditional distribution of the missing variables given the observed ones, including the choice of repetition "
                  "and class (uniform class prior), independently for each row of the batch.",
        over=["inputs", "configurations"], text="every subset of missing variables, every observed value of the alphabet, every answer of every random draw",
        why="The tests check shapes and that evidence survives; the conditional law depends on cached likelihoods at every sum node.",
        files=[E_, "simple_einet/sampling_utils.py", "simple_einet/abstract_layers.py"] + LAY,
        mechanism=[("re-weighting of sum nodes by cached likelihoods", LAY[1]), ("input caches enabled during a conditional query", "simple_einet/sampling_utils.py")],
        technique=DFS + "DFS over all outcomes of all random draws, path probabilities compared with conditional densities", note=TRUST),
    dict(
        id="C05", title="Conditional queries fill in missing entries and touch nothing else",
        statement="Sampling or MPE with evidence (univariate leaves; plain, differentiable or with modes at the leaves) returns a tensor of the evidence's shape in "
                  "which every observed entry is unchanged and every missing one (NaN, or named by marginalized_scopes) is filled with a value of the "
                  "leaf's domain. The caller's evidence tensor and the model's parameters are never modified, and the result does not share memory with the evidence.",
        over=["inputs", "configurations"], text="every partial assignment (batches: every pair of rows), every subset as marginalized_scopes, every input layout, every answer of every draw",
        why="The tests check two fixed masks of one model; a mask that is applied to the wrong axis or row survives them.",
        files=[E_, "simple_einet/sampling_utils.py", LEAF, DIST + "abstract_leaf.py"], mechanism=[("evidence is copied into the sample", E_), ("NaN replacement", DIST + "abstract_leaf.py")],
        technique=DFS + "the lattice of partial assignments times all outcomes of all draws", note=TRUST),
    dict(
        id="C06", title="MPE takes the most probable alternative at every decision",
        statement="An MPE query (mpe, or sample with is_mpe, with or without evidence, a class, marginalized_scopes or a seed) makes no random draw and is the sample obtained by "
                  "taking, at every decision (class, repetition, branch, leaf), the alternative that is most probable given the evidence; in a model without "
                  "sums it is therefore the completion of highest density. With mpe_at_leaves only the leaves answer with their modes, while "
                  "branches are drawn as usual.",
        over=["inputs", "configurations"], text="every partial assignment of small models, every answer of every draw of the sampler it is compared with",
        why="The tests only check that MPE is finite and shaped; which branch was taken is never compared with the density.",
        files=[E_, "simple_einet/sampling_utils.py", DIST + "abstract_leaf.py"] + LAY, mechanism=[("argmax instead of a draw", "simple_einet/sampling_utils.py"), ("mode of a leaf", "simple_einet/dist.py")],
        technique=DFS + "the lattice of partial assignments; decisions recovered from the density or from the sampler", note=TRUST),
    dict(
        id="C07", title="Classes: class-conditional sampling, posterior, rejected class requests",
        statement="sample(class_index=c) follows the density of class c (a list of classes gives row i class i, also differentiably), and posterior(x) is "
                  "the normalised log posterior of the classes under a uniform prior for every complete or partial input. "
                  "A class request that contradicts num_samples or the evidence, or a posterior of a model with one class, is rejected with an exception.",
        over=["inputs", "configurations"], text="every class and every list of two classes, every partial input of three variables, every answer of every draw",
        why="Tests sample one class and look at the shape.",
        files=[E_], mechanism=[("class index replaces the draw of the class", E_), ("posterior", E_)],
        technique=DFS + "DFS over all outcomes of all random draws; all partial inputs", note=TRUST),
    dict(
        id="C08", title="Differentiable sampling agrees with index-based sampling",
        statement="For the same decisions, is_differentiable=True returns the same values as index-based sampling (with or without evidence, classes, repetitions, "
                  "temperatures, MPE, and modes at the leaves), and the race that makes a decision is won by each alternative with the probability the index-based draw gives it. "
                  "The result is connected to the parameters: gradients are finite, and a location parameter of a chosen leaf has the gradient of the identity.",
        over=["inputs", "configurations", "schedules"], text="every combination of winners of all races, every partial assignment for MPE, a full grid of uniform answers for the frequencies",
        why="Tests check shapes; a one-hot vector gathered over the wrong axis keeps the shape.",
        files=["simple_einet/sampling_utils.py", E_, LEAF, DIST + "abstract_leaf.py"] + LAY, mechanism=[("straight-through one-hot selection", "simple_einet/sampling_utils.py"), ("index_one_hot", "simple_einet/sampling_utils.py")],
        technique=DFS + "all winners of all races, compared with the index-based run under the same decisions", note=TRUST),
    dict(
        id="C09", title="Queries are independent of history and reproducible from a seed",
        statement="The result of every query depends only on parameters, arguments and the state of the random generator: no sequence of "
                  "earlier queries (including failing ones) changes it, parameter updates take effect at once, and no parameter, buffer or setting of the model is changed by a query. "
                  "sample(seed=s) gives the same result whatever the state of the generator, and unseeded sampling advances the generator.",
        over=["histories", "configurations"], text="all histories of up to 3 (thorough 4) operations over an alphabet of 18 operations",
        why="Tests run each query on a fresh model; stale caches show only in sequences.",
        files=[E_, "simple_einet/sampling_utils.py", "simple_einet/abstract_layers.py"], mechanism=[("caches cleared at the end of a query", "simple_einet/sampling_utils.py"), ("seed", E_)],
        technique=DFS + "all operation sequences up to a depth, against a fresh copy of the model; Einets, mixtures and convolutional circuits", note=TRUST),
    dict(
        id="C10", title="A query that fails half-way leaves no trace",
        statement="If any query (forward, sampling, conditional sampling, MPE, posterior) is aborted by an exception at any point, the exception "
                  "reaches the caller, the model's parameters and global settings are as before, and every later query gives exactly the result it would have given without the failed one.",
        over=["histories", "crash points"], text="an exception at every tensor operation of every query, followed by every query",
        why="No test injects a failure; a cache left enabled by an exception corrupts later conditional samples silently.",
        files=["simple_einet/sampling_utils.py", E_, "simple_einet/abstract_layers.py"], mechanism=[("clean-up when leaving the sampling context", "simple_einet/sampling_utils.py")],
        technique="exhaustive fault enumeration on the real code: one exception at every tensor operation of every query, then every query as a probe; Einets, mixtures and convolutional circuits",
        level="fault_enumeration", note="One fault per run, at the granularity of torch calls; asynchronous interrupts between two calls are covered only as exceptions raised by the next call."),
    dict(
        id="C11", title="The leaf cache returns what was stored under its index until it is reset",
        statement="forward(x, cache_index=i) returns the same as an uncached forward the first time index i is used after reset_cache(); afterwards it evaluates the "
                  "leaves from that first call (its input, its marginalised scopes, its leaf parameters) with the current sum parameters. "
                  "Indices and models do not influence one another, calls without an index and sampling neither read nor write the cache, and reset_cache() empties it.",
        over=["histories"], text="all histories of up to 4 (thorough 5) operations over 11 operations on two models",
        why="No test uses the cache with more than one index or interleaves it with other operations.",
        files=[E_], mechanism=[("leaf cache", E_)],
        technique="explicit-state model of the cache explored exhaustively; every model trace is replayed on the real code and every result compared", note=TRUST),
    dict(
        id="C12", title="Rows of a batch are independent; layout of the input does not matter",
        statement="Every row of a batch gets the result it would get alone, whatever the other rows contain (extreme values, missing entries), for the forward pass, "
                  "posterior and MPE, and sample(n) has shape [n, channels, features]. The layouts [N, D] (one channel), [N, C, D] and [N, C, H, W] of the same data give the same result, and so do "
                  "integer data (all univariate leaves but Bernoulli) and a double precision copy of the model; inputs with a wrong number of features or channels are rejected.",
        over=["inputs", "configurations"], text="every batch of up to 3 (thorough 4) rows over an alphabet of rows, every layout of 1 to 3 channels",
        why="Tests use one random batch; cross-talk between rows needs two runs to be seen.",
        files=[E_, LEAF, DIST + "abstract_leaf.py"] + LAY, mechanism=[("input reshaping", E_), ("broadcasting over the batch", LAY[1])],
        technique=DFS + "all batches over an alphabet of rows, each row compared with its own run", note=TRUST),
    dict(
        id="C13", title="Exactly the valid configurations are accepted, and those work",
        statement="A configuration is accepted exactly if it satisfies the documented constraints (at least two features, depth at least 0 and at most log2 of the number of leaf groups, a cardinality that "
                  "divides the features, positive sizes, dropout in [0, 1), bottom-up only with linsum and univariate leaves, valid leaf arguments); otherwise an exception is raised at construction. "
                  "On every accepted one all operations work (forward, finite gradients for every trainable parameter, posterior, sampling and MPE with and without evidence, differentiable sampling), and the configuration is not changed.",
        over=["configurations"], text="the full grid of sizes, depths, layer types, structures and leaf families; every single deviation and pairs of deviations to invalid values",
        why="Tests build a few dozen configurations; the corners (depth 0, depth = log2(D), odd sizes, one repetition) are where layers are wired differently.",
        files=[E_, "simple_einet/type_checks.py", DIST + "multidistribution.py", LEAF] + LAY, mechanism=[("configuration checks", E_), ("wiring of layers", E_)],
        technique=DFS + "the full grid of configurations times all operations", note=TRUST),
    dict(
        id="C14", title="Dropout removes children of sum nodes, never all, only in training",
        statement="With dropout p, in training mode, every child of every sum node (of every layer type, including the root) is removed independently with probability p, conditioned on at least one child of a node "
                  "remaining; the output is the sum over the remaining children with their weights, finite, with finite gradients. In evaluation mode, or with p = 0, dropout has no effect and makes no random draw.",
        over=["configurations", "inputs"], text="every dropout mask of every layer type, every mask with up to two dropped children of whole models",
        why="Tests never look at dropout; a mask on the wrong axis or the all-dropped node (probability p^n) is not met by one random forward pass.",
        files=LAY + ["simple_einet/abstract_layers.py", E_], mechanism=[("dropout mask and its resampling", LAY[1])],
        technique=DFS + "DFS over all dropout masks, law of the output compared with the stated one", note=TRUST),
    dict(
        id="C15", title="Every leaf is the documented distribution, also at saturated parameters",
        statement="Normal, RatNormal, Bernoulli, Binomial, Categorical and multivariate normal leaves have the probabilities of their documented parametrisation (RatNormal: bounds on standard deviation and mean) "
                  "for every parameter value including saturated ones: normalised, never NaN. Their mode is a value of the domain of maximal probability, their samples follow the distribution, "
                  "and each leaf, channel, feature and repetition depends on its own parameters and inputs only.",
        over=["inputs", "configurations"], text="a grid of parameters up to +-1e3, every value of the domain, every answer of every draw",
        why="Tests use randomly initialised parameters, all near zero, and compare shapes.",
        files=[DIST + f for f in ("abstract_leaf.py", "normal.py", "bernoulli.py", "binomial.py", "categorical.py", "multivariate_normal.py")] + ["simple_einet/dist.py"],
        mechanism=[("construction of the torch distribution", DIST + "abstract_leaf.py"), ("modes", DIST + "binomial.py")],
        technique=DFS + "all parameters of a grid times all values of the domain, against closed formulas", note=TRUST),
    dict(
        id="C16", title="A leaf layer of several distributions is each feature's own distribution",
        statement="A leaf layer that assigns different distributions to different features gives every feature the likelihood, marginalisation, mode, samples and parameters of the distribution "
                  "(and the parameters) it was assigned, whatever the order and grouping of the features, and works inside a model like any other leaf.",
        over=["configurations", "inputs"], text="every order and every grouping of up to four features, five leaf families, every missing pattern, every choice of leaf indices, every answer of every draw",
        why="Tests use one order; un-permuting in the wrong direction agrees with the right one for every order that is its own inverse.",
        files=[DIST + "multidistribution.py", DIST + "abstract_leaf.py"], mechanism=[("scopes per distribution and their inverse permutation", DIST + "multidistribution.py")],
        technique=DFS + "all orders and groupings, compared with one-feature leaves; DFS over all answers of all draws", note=TRUST),
    dict(
        id="C17", title="Returned leaf parameters are those of the leaves the sampler picked",
        statement="Sampling with return_leaf_params returns, for every sample, channel and feature, the parameter vector (as get_params lays it out) of the leaf that sampling picks: "
                  "with the same probabilities as sampling itself, with or without evidence, class, repetitions, MPE, temperature or differentiable sampling, all leaves of a sample from one repetition.",
        over=["inputs", "configurations", "schedules"], text="every answer of every draw, every partial assignment of small models, every winner of every race",
        why="No test uses the option; the parameters travel through their own copy of the index code.",
        files=[LEAF, DIST + "abstract_leaf.py", DIST + "multidistribution.py", E_], mechanism=[("selection of leaf parameters", LEAF), ("parameters of a leaf layer", DIST + "normal.py")],
        technique=DFS + "DFS over all outcomes of all random draws; law of the reported leaves compared with the law of the sampled ones", note=TRUST),
    dict(
        id="C19", title="Convolutional circuits: exact density, marginals, sampling and MPE",
        statement="A convolutional circuit (both structures, both layer orders, any channel list including single channels) is a normalised distribution, sums out missing pixels exactly (NaN or "
                  "marginalized_scopes), samples from its density, imputes missing pixels from the conditional distribution without touching observed ones, and MPE takes the most probable child everywhere "
                  "(no draws). Seeded sampling is reproducible, and returned leaf parameters are those of the chosen leaves. The sum-convolution layer is the mixture given by its weights, in evaluation and sampling.",
        over=["inputs", "configurations"], text="all images and all partial images of 2x2 pixels, structures up to 4x4 pixels, every answer of every draw",
        why="The tests check shapes of one configuration; sampling with evidence could not even run.",
        files=["simple_einet/conv_pc.py", DIST + "abstract_leaf.py", "simple_einet/sampling_utils.py"], mechanism=[("sum and product layers over patches", "simple_einet/conv_pc.py"), ("sampling context", "simple_einet/conv_pc.py")],
        technique=DFS + "all (partial) images; DFS over all outcomes of all draws, law compared with the density", note=TRUST),
    dict(
        id="C18", title="Mixtures route inputs to the closest component and sample by weight",
        statement="A mixture of circuits evaluates every input with the component whose centroid is closest on the observed features, in the order of the batch, and completes evidence from that component's conditional. "
                  "Samples are independent draws from the weighted components (or blocks per component, or the modes of the heaviest one), reproducible under a seed that leaves the generator untouched. "
                  "Initialising from data sets weights to the cluster frequencies (also with empty clusters) and the centroids, and this state can be saved and loaded.",
        over=["inputs", "configurations", "histories"], text="every clustering of 4 rows, every batch of up to 3 rows, every missing pattern, every subset as marginalized_scopes, every answer of every draw",
        why="No test constructs a mixture; scattering the results of the components back into the order of the batch only shows for interleaved batches.",
        files=["simple_einet/mixture.py", E_], mechanism=[("assignment to the closest centroid", "simple_einet/mixture.py"), ("sampling of the components", "simple_einet/mixture.py")],
        technique=DFS + "all batches and clusterings; DFS over all answers of all draws", note=TRUST),
    dict(
        id="C20", title="Piecewise-linear leaves are the histogram of their cluster's data",
        statement="A piecewise-linear leaf estimated from data is a normalised density: the (smoothed) relative frequencies of the domain's values for discrete features, the linear interpolation of the automatic histogram "
                  "(numpy's bins) for continuous ones, uniform for clusters without data, each feature, channel and cluster from its own data. Samples follow that density and lie in the domain, the mode is its maximum, "
                  "and inside a model missing values are summed out. A leaf that was never estimated, or was reset, refuses to evaluate.",
        over=["inputs", "configurations", "histories"], text="every data set of 4 rows over small domains, every clustering, every answer of every draw, every operation sequence of length 4",
        why="No test estimates such a leaf; errors in bins, tails or values keep every shape.",
        files=[DIST + "piecewise_linear.py", "simple_einet/histogram.py", "simple_einet/dist.py"], mechanism=[("histogram and its interpolation", DIST + "piecewise_linear.py"), ("automatic bins", "simple_einet/histogram.py")],
        technique=DFS + "all small data sets and clusterings, against numpy's histogram; DFS over the answers of all draws", note=TRUST + " k-means itself is replaced by an environment that answers every clustering."),
    dict(
        id="C21", title="Image quantisation, the leaves made for it and bits per dimension",
        statement="Reducing an image to n bits maps each of the 256 grey levels to its floor bin, for every n and every float layout, without touching the input; dequantisation noise stays inside the bin and the "
                  "discrete preprocessing gives exactly the values 0..2^n-1. The leaves built for n bits have exactly these values (Normal leaves keep intensities in [0, 1]), so that a model over them is normalised, "
                  "and bits per dimension of a model are -log2 of its probability mass (or density at the scale of the bins) divided by the number of pixels.",
        over=["inputs", "configurations"], text="all 256 grey levels, all pairs of levels, 1-8 bits, every answer of the noise, all small images under real models",
        why="No test touches quantisation; an off-by-one in the number of bins or a wrong scale only shows for other values of n_bits than the default.",
        files=["simple_einet/utils.py", "simple_einet/dist.py"], mechanism=[("reduction of bits and preprocessing", "simple_einet/utils.py"), ("leaves for a number of bits", "simple_einet/dist.py")],
        technique=DFS + "all grey levels, numbers of bits and noise answers, all small images", note=TRUST),
    dict(
        id="C22", title="Sampling at a temperature samples the tempered circuit",
        statement="Sampling with temperature_sums T draws every sum's child with probability proportional to w^(1/T), and with temperature_leaves T from the leaf density tempered by T (proportional to "
                  "p^(1/T), for Normal and categorical leaves), in every layer including the root's class and repetition choice, differentiable or not, with or without evidence (prior weights tempered); T = 1 is plain sampling, "
                  "MPE does not depend on it, and neither the model nor its likelihoods are changed by it.",
        over=["inputs", "configurations"], text="every answer of every draw of small circuits, four temperatures of sums and of leaves and all their pairs",
        why="Tests use temperature one; a layer that forgets the temperature still produces plausible samples.",
        files=["simple_einet/abstract_layers.py", LEAF, DIST + "abstract_leaf.py", E_] + LAY, mechanism=[("projection of logits at a temperature", "simple_einet/abstract_layers.py"), ("leaf temperature", DIST + "normal.py")],
        technique=DFS + "DFS over all answers of all draws; law compared with the law of the circuit with tempered weights", note=TRUST),
    dict(
        id="C23", title="A saved, copied or pickled model is the same model",
        statement="Loading a state_dict into a model of the same configuration reproduces the saved model whatever random structure and parameters the loading model had: same likelihoods, marginals, samples under a seed, MPE and "
                  "gradients. Deep copies, pickles and torch.save round trips do the same, later changes of one never show in the other, and no sequence of loads, copies, queries and training steps leaves a trace of earlier state.",
        over=["inputs", "configurations", "histories"], text="every random structure of both models (up to three variables), every operation sequence of length 4, all leaf families and model kinds",
        why="Tests never load into a model with another structure; permutations that are not part of the state only matter for a second model.",
        files=[E_, LEAF, "simple_einet/conv_pc.py", "simple_einet/mixture.py", DIST + "abstract_leaf.py"], mechanism=[("structure kept in buffers", LEAF), ("random permutations of the layers", E_)],
        technique=DFS + "all pairs of random structures, all operation sequences of bounded length", note=TRUST),
    dict(
        id="C24", title="Layers and sampling primitives are what their weights and shape define",
        statement="Each sum layer on its own (including odd numbers of features, padded with a marginalised one) computes the mixture of its products with normalised weights for every input without under- or overflow, "
                  "draws children for each row from that row's parent and repetition with exactly these weights, and the most likely ones in MPE; product layers multiply their scopes and hand on parents. One-hot indexing "
                  "equals indexing, permutations invert, and the differentiable draw is one-hot, has finite gradients, the given probabilities and the largest in MPE, along any dimension.",
        over=["inputs", "configurations"], text="all assignments of extreme log-likelihoods to up to 6 children, every parent, repetition and answer of every draw, all permutations of up to 6 elements, a full grid of uniform answers",
        why="Tests use layers inside models with power-of-two widths and moderate likelihoods.",
        files=LAY + ["simple_einet/layers/product.py", "simple_einet/sampling_utils.py", "simple_einet/abstract_layers.py", "simple_einet/utils.py"],
        mechanism=[("forward pass and sampling of sum layers", "simple_einet/abstract_layers.py"), ("differentiable categorical draw", "simple_einet/sampling_utils.py")],
        technique=DFS + "all inputs from a set of extreme values against a float64 reference; DFS over all answers of all draws", note=TRUST),
    dict(
        id="C25", title="Gradients are the derivatives of the log-likelihood, and finite",
        statement="For every partial input (NaN or marginalized_scopes), the gradient that autograd returns for the log-likelihood and for the posterior with respect to every parameter, and to the observed inputs of continuous "
                  "leaves, is the derivative of that very function, and a batch's gradient is the sum of its rows'. Missing values, unlikely inputs and saturated leaves never make a gradient NaN or infinite.",
        over=["inputs", "configurations"], text="every parameter of small models of every architecture, leaf family, Conv-PC and mixture x all partial assignments",
        why="Tests check at most that some gradient exists; one NaN in a masked-out branch or a detached path ruins training only for inputs with missing values or saturated leaves.",
        files=[E_, LEAF, DIST + "abstract_leaf.py", "simple_einet/abstract_layers.py"] + LAY, mechanism=[("masking of marginalised leaves", DIST + "abstract_leaf.py"), ("log-sum-exp of sum layers", "simple_einet/layers/einsum.py")],
        technique=DFS + "every parameter of every configuration on every partial assignment, autograd against central differences of the real forward pass", note=TRUST + " Central differences (step 0.02, tolerance 2%) decide equality; differences below that are not seen."),
    dict(
        id="C26", title="Training entry points optimise and report the likelihood they document",
        statement="The Lightning modules map images in [0, 1] to the values 0..2^n_bits-1 for discrete leaves (and leave data of continuous leaves alone) without touching the batch, map samples back to images, and their training, validation and test "
                  "steps return and log the mean negative log-likelihood, respectively the loss and accuracy of the class posterior, of exactly that data. main.py trains and reports the uniform mixture of the roots, or the posterior. "
                  "main_pwl.py descends the mean negative log-likelihood, shows every row equally often and draws the marginal density of every feature. "
                  "init_einet_stats sets every Normal leaf of an Einet or Mixture to its feature's mean and variance over the whole data set (plus the documented noise), however it is batched.",
        over=["inputs", "configurations"], text="all grey levels and pairs of levels, 1-8 bits, all batches of up to two rows with all labels, all small data sets in all batchings",
        why="No test imports the training modules; a wrong scale, reduction or batch weighting still trains and still reports plausible numbers.",
        files=["models_pl.py", "main.py", "main_pwl.py", "simple_einet/sampling_utils.py"], mechanism=[("Lightning modules", "models_pl.py"), ("script", "main.py"), ("initialisation from data", "simple_einet/sampling_utils.py")],
        technique=DFS + "all small images, batches, labels, data sets and batchings; DFS over the answers of all draws for samples", note=TRUST + " Lightning's trainer, logging and devices are outside; ConvPc has one root and no posterior, so discriminative ConvPc modules are not claimed."),
    dict(
        id="C27", title="Datasets, splits and samplers deliver every example exactly as documented",
        statement="For every supported data set name, get_datasets returns training, validation and test sets that keep each image or row with its own label, are disjoint, together hold exactly the examples of the source (real test examples only in the test set), depend on "
                  "the seed only and have the documented type, shape, value range and number of classes, so that a model built from the reported shape accepts them. build_dataloader visits every training example exactly once per epoch in a new seeded order, evaluates in fixed order, "
                  "and loops without end on request. TrainingSampler's shards over ranks partition one common permutation per epoch.",
        over=["inputs", "configurations", "histories"], text="every data set name with tagging stand-ins for sources, sizes, normalised or not; all permutations a sampler can draw for up to four examples, all ranks and world sizes up to four; all batch sizes and epochs of a small range",
        why="No test loads data (there is no network); swapped splits, a row paired with a neighbour's label or overlapping shards leave every metric plausible.",
        files=["simple_einet/data.py"], mechanism=[("data sets and splits", "simple_einet/data.py"), ("TrainingSampler", "simple_einet/data.py")],
        technique=DFS + "every data set with examples that carry their identity, DFS over all permutations drawn by the samplers, histories of epochs", note=TRUST + " Downloads, torchvision's and sklearn's sources are replaced by stand-ins that tag examples; mnist-bin and disjointness of synthetic splits are not claimed."),
    dict(
        id="C28", title="Numbers are validated alike and exactly at every entry point",
        statement="check_valid returns the value as the expected Python type for every integer (respectively real) number of Python, numpy or torch exactly when it lies in the half-open range given, accepts None exactly when allowed, and raises otherwise: numbers outside or NaN under a bound as OutOfBounds, other kinds of values as an invalid type. "
                  "Every constructor (leaves, layers, EinetConfig, ConvPcConfig, Mixture) accepts exactly the documented range for each argument it validates and builds the same object from equal numbers of any of these kinds.",
        over=["inputs", "configurations"], text="15 kinds of numbers, 22 values, nine kinds of non-numbers, all pairs of bounds; every validated argument of 13 constructors with every kind and boundary",
        why="Tests try a few values; an off-by-one bound or a numpy/torch scalar that silently truncates only shows for one kind at one boundary.",
        files=["simple_einet/type_checks.py", E_, "simple_einet/conv_pc.py", "simple_einet/mixture.py"] + LAY, mechanism=[("check_valid", "simple_einet/type_checks.py"), ("constructors", E_)],
        technique=DFS + "the full product of kinds, values and bounds, and of constructors, arguments, kinds and boundary values", note=TRUST + " torch tensors as arguments of EinetConfig, ConvPcConfig and MultivariateNormal are not claimed."),
    dict(
        id="C29", title="Runs never overwrite, mix or lose results of other runs",
        statement="In every history of starting, failing and interrupting runs, a run started in fresh mode gets an empty directory of its own below results_dir/simple-einet/experiment/dataset, every file ever written by any run stays intact in that run's directory, a failed or interrupted run is moved to its own _error/_interrupted directory, and a failure is re-raised as the "
                  "original exception and reported with its traceback. The helpers around it keep their contracts: directories by timestamp, stored arguments, sample images, seeding (also without a seed and per worker), scaling for several workers, detection of non-finite losses.",
        over=["histories", "inputs"], text="all histories of up to five operations under colliding tags, on a real scratch file system, checked after every operation",
        why="No test touches the experiment helpers; a third run with the same tag, or a second failure, is needed before results are mixed or an error is masked.",
        files=["exp_utils.py"], mechanism=[("make_results_dir", "exp_utils.py"), ("catch_exception", "exp_utils.py"), ("seed_all_rng", "exp_utils.py")],
        technique=DFS + "all operation histories up to the depth on a scratch file system against a set-of-runs model", note="Exhaustive within the stated bounds on the real code against a reference that tracks which files each run wrote; concurrent processes are not explored."),
    dict(
        id="C30", title="Entry points do exactly what their configuration says",
        statement="main_pl.main trains the kind of model configured (density or classifier, single or mixture, leaf family), initialised from training data when and only when asked, on the training set with the validation set, evaluates that same model on training, validation and test set, and stores it and the configuration in the run directory; it normalises data exactly for Gaussian leaves and is determined by "
                  "the seed; evaluation-only runs never train. preprocess_cfg fills in exactly the missing settings from environment or defaults and never overrides a given one; the command line of main.py sets exactly the options given. Logging is closed after failures, too.",
        over=["configurations"], text="all combinations of seven switches x six leaf families x two data sets; all subsets of missing settings x environment; all options and pairs of options with all listed values",
        why="No test runs an entry point; an evaluation on the wrong split or a model initialised from test data produces plausible numbers in every run.",
        files=["main_pl.py", "args.py", "models_pl.py"], mechanism=[("pipeline", "main_pl.py"), ("completion of the configuration", "main_pl.py"), ("command line", "args.py")],
        technique=DFS + "the full product of configuration switches, run to the end with a recording trainer, and of options of the command line", note=TRUST + " The trainer, logger and data sources are recording stand-ins; main.py's script body is the subject of C32."),
    dict(
        id="C31", title="Conditional leaves are the conditional distribution their network computes",
        statement="With ConditionalBinomial leaves, an Einet evaluates every input as the same circuit would with Binomial leaves whose logits are, for the first half of the variables, the base parameters plus what the network computes from that row's own conditioning variables, and for the second half the unconditional parameters. "
                  "It is normalised over all inputs; missing conditioned variables (NaN or marginalized_scopes) are summed out; sampling and MPE given the condition follow exactly that conditional distribution, row by row, in both structures.",
        over=["inputs", "schedules", "configurations"], text="all inputs, all subsets of missing variables and all answers of all draws for 2 variables (8 for densities and MPE)",
        why="No test uses conditional leaves; a parameter of another row, pixel or repetition still gives plausible likelihoods and samples.",
        files=["simple_einet/layers/distributions/binomial.py", E_], mechanism=[("ConditionalBinomial", "simple_einet/layers/distributions/binomial.py"), ("leaf layer inside the model", E_)],
        technique=DFS + "every input, condition and answer of every draw; the oracle is the same circuit with plain Binomial leaves set to the condition's logits", note=TRUST + " Missing conditioning variables, differentiable sampling and returned leaf parameters of conditional leaves are not claimed."),
    dict(
        id="C32", title="Runs of main.py train, save, report and reconstruct one and the same model",
        statement="Running main.py with --train makes exactly the configured number of passes over the training set (shortened by --debug and --dry-run), shows every example equally often in the preprocessed form that the leaf family expects, saves exactly the trained parameters, and is determined by the seed. Running it without --train loads the last saved model, changes nothing, and reports that model's average negative "
                  "log-likelihood (and accuracy, for classification) on the training, validation and test sets. A run neither reads nor writes another results directory. The options reach the model, its leaves and the optimiser, for every leaf family, layer type and structure. Images: the ground truth is the test data; samples are values the leaves can produce; reconstructions keep the evidence and replace the hidden part; MPE images are the model's most probable explanations; images with several channels work like those with one.",
        over=["histories", "configurations"], text="all histories of up to 3 runs over two results directories; 4 leaf families x bits x layers x structures x classification; batch sizes and epochs",
        why="No test runs the script; a model saved before its last update, an evaluation on the wrong split or a reconstruction that leaks the hidden pixels looks plausible in every run.",
        files=["main.py", "args.py", "simple_einet/utils.py"], mechanism=[("training loop, evaluation and script body", "main.py"), ("preprocessing", "simple_einet/utils.py")],
        technique=DFS + "all histories of runs over two results directories, executed end to end in the checking process with small data, against a model of what is trained and saved", note=TRUST + " Data sources, the image encoder, mixed precision and dequantisation noise are replaced by exact stand-ins."),
    dict(
        id="C33", title="Runs of main_pl.py train, store, report and reload the same model",
        statement="A run of main_pl.py with the real trainer makes exactly the configured number of epochs and shows every training example exactly once per epoch, starts with the configured learning rate and divides it by ten after 70 % and again after 90 % of the epochs, is determined by its seed, stores exactly the trained parameters as model.pt in its run directory and reports, "
                  "for the training, validation and test set, the average negative log-likelihood (density models) or the accuracy (classifiers) of exactly that model over all examples, whatever the batch size. A run with load_and_eval=True in such a directory loads the model trained last there, takes no optimiser step, leaves it unchanged and reports the same values; without a stored model it fails. Runs do not touch other run directories. "
                  "This holds for Einets and mixtures of Einets (both layer types, both structures), convolutional circuits, all leaf families, with dropout, weight averaging and data initialisation.",
        over=["histories", "configurations"], text="all histories of 3 runs over two run directories; leaf families x layers x kinds of models x training options; epochs x batch sizes",
        why="No test runs the script; a stale checkpoint, an average over batches instead of examples or a schedule counted in steps give plausible numbers in every single run.",
        files=["main_pl.py", "models_pl.py", "exp_utils.py", "simple_einet/data.py"], mechanism=[("pipeline", "main_pl.py"), ("training, evaluation, optimiser and schedule", "models_pl.py"), ("load_from_checkpoint", "exp_utils.py"), ("data loaders", "simple_einet/data.py")],
        technique=DFS + "all histories of runs over two run directories, executed end to end with the real trainer on small data, against a model of what is trained and stored", note=TRUST + " Data sources, the experiment logger and hydra's run directory are stand-ins; classification with mixtures or convolutional circuits is not supported by the code (no posterior)."),
]
