"""Per property: what is enumerated and judged, against which oracle (rendered into DESIGN.md by tools/gen.py)."""
TEXT = dict(
C01="Build real models over a grid of leaf family x structure x layer type x depth x repetitions x channels x classes, for every outcome of the structural draws (feature permutations, group shuffles) of the small ones, and "
    "sum exp(forward) over all inputs of the discrete domain (quadrature for one or two continuous variables). Oracle: 1 for each class.",
C02="For every assignment of {domain values, missing} to all features and channels: forward equals the log-sum-exp of forward over all completions (oracle: brute-force enumeration, or quadrature); the same through every spelling "
    "of marginalized_scopes (list, tuple, set order, tensor, duplicates) with NaN, ordinary and extreme values underneath; the argument tensor is bit-identical afterwards.",
C03="DFS over all draws of `sample`, law of the returned rows compared with exp(forward) over the domain (tagged leaves for continuous families); batches of two: joint law is the product (rows independent). All "
    "random structures for the configurations listed as allperm. Large batches (the most probable row and every single-cell deviation from it, up to 1030 rows and more): each row is what it is alone. Seeds 0..599 reach every outcome, and two draws under one seed are not copies of each other.",
C04="As C03 with evidence: for every missing pattern and every value of the observed entries the law of the completions is forward(x)/sum over completions. Large batches (the most probable row and every single-cell deviation from it, up to 1030 rows and more): each row is what it is alone. Seeds 0..599 reach every completion.",
C05="For every partial assignment, every answer of each draw: observed entries bit-identical, missing ones filled with domain values, no NaN, shape, dtype and the caller's tensor unchanged; all layouts.",
C06="MPE of models whose decisions can be recovered from the density (tagged leaves) must be the branch of maximal posterior weight at each decision; deeper models: equal to the sampler whose draws are answered by their most probable outcome; "
    "no draw is made at all, and repeated calls agree.",
C07="Law of class-conditional sampling equals exp(forward[:, class]) for each class and list of classes; posterior equals Bayes' rule in float64 log space for every partial assignment, finite and normalised also for inputs whose likelihood "
    "underflows; invalid class requests are rejected. Class lists longer than the number of classes.",
C08="Every combination of winners of the differentiable draws is fed to both samplers: differentiable sampling selects the leaf that index-based sampling selects for the same decisions, with the same law (race winner frequencies on a grid), MPE "
    "equal, output has gradients with respect to every parameter that took part, finite.",
C09="Explicit-state exploration of operation histories: after every sequence of up to 3 (4) operations, each probe operation returns exactly what it returns on a fresh copy of the model with the same generator state; "
    "seeded calls leave the generator untouched.",
C10="Fault enumeration: for every operation, an exception is raised at its 1st, 2nd, ... nth torch call; afterwards every probe returns what it returns on an untouched model and the model's modules hold no leftover state.",
C11="Reference model of the cache (index -> stored input, scopes, parameters) stepped together with the real code over every operation history; each result must be what the reference predicts.",
C12="For every batch: forward/posterior/MPE of the batch equals the rows one by one; all layouts of the same data agree, so do integers and double precision. (Bernoulli leaves reject integer tensors with an error of torch, and double inputs to a single precision model or half precision inputs fail in torch's einsum: not claimed.) Large batches (the most probable row and every single-cell deviation from it, up to 10001 rows and more): each row is what it is alone.",
C13="The full grid of configurations is classified by an independent statement of the documented conditions; accepted iff valid; every accepted one builds, evaluates (finite), samples (shape, domain), conditions and back-propagates. Every invalid single-field deviation and "
    "pair of deviations is rejected with an exception.",
C14="All masks are enumerated through the environment's Bernoulli answers (the rejection loop is unrolled until the unexplored mass is below 1%); law of the output equals that of independent removal conditioned on one survivor, computed from the float64 mixture.",
C15="All parameters of a grid, all values: log-prob equals the closed formula, sums/integrates to one, mode is the arg max, law of samples, independence of neighbours' parameters (perturb one parameter, only its own cell changes).",
C16="For every order and grouping: per-feature results of the joint layer equal those of one-feature leaves with the same parameters; sampling law, mode, get_params, marginalisation, and inside an Einet normalisation and sampling law.",
C17="Law of the reported parameter vectors equals the law of leaves picked by sampling (tagged parameters identify them), for every option.",
C18="k-means answers every clustering: weights are the frequencies, centroids stored; every batch: result row i equals that of the component nearest to row i (recomputed in float64); sampling laws over all draws; save/load. Large batches (the most probable row and every single-cell deviation from it, up to 1030 rows and more): each row is what it is alone. Seeds 0..599 reach every outcome.",
C19="As C01-C06, C09, C12, C17 for ConvPc: sums over all images, all partial images, laws of sampling with and without evidence, MPE decisions, SumConv alone against the float64 mixture. Large batches (the most probable row and every single-cell deviation from it, up to 1030 rows and more): each row is what it is alone. Seeds 0..599 reach every outcome.",
C20="All data sets and clusterings: density equals numpy's histogram (same rule for the bins, recomputed independently) with linear interpolation/normalisation, integral one, sampling law on a grid of uniforms, mode, life cycle histories (build, reset, evaluate).",
C21="All grey levels x bits against integer arithmetic; noise answers at the extremes stay inside the bin and keep the integral of density equal; bpd against a direct formula for every small image under real models.",
C22="Law under temperature equals the law of a deep copy whose logits are divided by T and whose leaves are tempered explicitly; T=1, MPE and the model itself are unchanged.",
C23="Loading/copying/pickling between models over all pairs of random structures; a panel of queries must agree bit for bit; operation histories with two states A and B compared with fresh models.",
C24="Layer classes alone: forward against a float64 log-domain reference on all assignments of extreme values; law of child indices per row for every parent and repetition; primitives against direct definitions.",
C25="Central differences of the real forward pass (posterior, Conv-PC, mixture) for every entry of every parameter, every row of all partial assignments, every output; gradients of batches against the sum of rows; NaN against scopes; finiteness on extreme inputs and saturated parameters.",
C26="Every step method is called on all grey levels / batches / labels and compared with the float64 value of the model on data mapped by integer arithmetic (value, logged value, gradient); main.train/test driven with stub optimiser and loaders over all batchings; law of generated images against the law of the model's samples; init_einet_stats on all small data sets in all batchings (noise answered 0, -1, 1).",
C27="Sources are replaced by stand-ins whose examples carry their identity and label; every example of every split is identified again after all transforms; unions, disjointness, labels, ranges, classes and determinism follow. Sampler: DFS over every permutation torch can return; loaders: epochs replayed and compared. DEBD sets are laid out in a scratch directory.",
C28="The full product kinds x values x bounds x None through check_valid against the half-open interval; every validated argument of every constructor with every numeric kind (same parameters bit for bit), boundary, out-of-range and non-numeric value.",
C29="Every history of operations is replayed from scratch on a temporary file system; after each operation the tree must equal the reference {run: files it wrote}. Remaining helpers on full products of small inputs.",
C30="main_pl.main runs to its end for every combination of switches, with recording stand-ins for trainer, logger, data and Hydra; the record (which loaders, which model, in which order, what was stored, what was initialised from which data) is compared with the configuration. preprocess_cfg and parse_args on full products.",
C31="For every condition, the conditional model is compared with the plain circuit (same sums, structure; Binomial leaves set to base + network output): forward on all complete and partial inputs, total mass, batches of mixed conditions, laws of imputations over all draws, MPE and modes. Large batches (the most probable row and every single-cell deviation from it, up to 1030 rows and more): each row is what it is alone.",
C32="main.py is executed as a script, in-process, once per run of a history; every run shares the results directory. The saved file is compared with the live model, the printed losses and accuracies with an independent evaluation of the saved parameters, the examples seen in training mode with the preprocessed training set, the tensors handed to the image encoder with test data, evidence mask and model.mpe.",
C33="main_pl.main is called once per run of a history with the real Lightning trainer; optimiser steps, learning rates and the examples handed to training_step are recorded; model.pt is compared with the live module, the logged test metrics with a one-example-at-a-time evaluation of the stored parameters; directories are compared before and after.",
)

# planted bugs that are caught by more (or other) checks than the one of their property
CAUGHT = {}
