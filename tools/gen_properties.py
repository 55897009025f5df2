"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Splitting and merging by domain never loses, moves or alters a sample",
 "For any assignment of domain labels to samples in any row order, splitting arrays by source/target or by individual domain puts each sample on exactly the side its label says (source iff the label is non-negative), keeps the original order and splits every array the same way. Merging the parts back under the same labels returns the original arrays row for row with no value changed, and a missing side is filled with the documented masked label (-1 for classification, NaN for regression).",
 ["inputs"], "all label assignments over a small set of source and target labels (including domain 0), all lengths up to the bound, all numeric dtypes and 1-D/2-D/3-D arrays, one to three arrays, either side empty or None",
 "Tests use two or three fixed, already sorted label vectors; interleaved rows, mixed dtypes and one-sided inputs are never combined.",
 ["skada/utils.py", "skada/_utils.py"],
 [("source_target_split / source_target_merge / per_domain_split", "skada/utils.py"), ("extract_source_indices / extract_domains_indices", "skada/utils.py")])

prop("P02", "Input validation accepts exactly the domain layouts the caller allowed",
 "Validating (features, labels, domain labels) raises if and only if the data violates a restriction the caller asked for: no source, no target, a single source domain, a single target domain, no index shared by a source and a target domain, a set of known domains, an explicit label vector, or lengths that agree. Accepted data comes back with the same values and one domain label per sample; omitted domain labels are derived from the label mask (masked samples are target, the others source) or default to target when there are no labels, and a scalar applies to every sample.",
 ["inputs", "configurations"], "all label vectors over a small alphabet up to the bound crossed with every combination of the restriction flags, for labelled and unlabelled validation, discrete and continuous masks, scalar / missing / explicit domain labels",
 "The 2^7 flag combinations interact with the domain layout; tests check a handful of single-flag cases on one dataset.",
 ["skada/utils.py", "skada/_utils.py"],
 [("check_X_y_domain / check_X_domain", "skada/utils.py"), ("_check_y_masking", "skada/_utils.py")])

prop("P03", "Packing a multi-domain dataset keeps every sample with its label and domain",
 "Whatever sequence of additions, merges (with or without renaming) and packings is performed on a multi-domain dataset, every packed row carries the features and label it was added with and the signed identifier of its own domain (+id when packed as source, -id as target), rows come in the order of the requested domains, and a domain's identifier is its position of insertion and never changes. No addition overwrites or hides an existing domain, a rejected operation leaves the dataset as it was, every return type carries the same content, and selecting by name picks exactly that domain's rows.",
 ["histories", "configurations"], "all operation histories up to a depth over named/unnamed, labelled/unlabelled, array/tensor domains and merges, each followed by every source/target request and return type",
 "The tests run one short history per feature; collisions between automatic and chosen names, merges of unlabelled domains and repeated packing only appear in longer histories.",
 ["skada/datasets/_base.py"],
 [("DomainAwareDataset.add_domain/merge/pack/pack_lodo/select_domain", "skada/datasets/_base.py")],
 state=[{"name": "domains_, domain_names_", "meaning": "list of domain data and name to id map", "where": "skada/datasets/_base.py"}])

prop("P04", "Packing for training exposes no target label and keeps every source label",
 "When a dataset is packed with target labels masked, no packed target row carries information about its true label: every one holds the masked value (-1 for discrete, NaN for continuous, or the mask the caller gave), for every label type, number of domains, order, and return type. Source labels are returned unchanged, and the stored dataset keeps its true labels, so later unmasked packings still return them.",
 ["configurations", "histories"], "all subsets and orders of source/target domains, all label dtypes and containers (integer and float widths, boolean, tensors, unlabelled), all masks and return types, repeated packings",
 "Masking is selected by a dtype test inside a loop over domains; tests only use int64/float64 with one target.",
 ["skada/datasets/_base.py"],
 [("DomainAwareDataset.pack masking branch, pack_lodo, pack_train", "skada/datasets/_base.py")])

prop("P05", "Domain-aware splitters yield honest train/test partitions for any random draw",
 "For every splitter and every outcome of its random draws, train and test index sets are valid row numbers, contain no duplicate, do not overlap, and have the sizes the requested train/test sizes imply for each side. Splits that promise both domains contain source and target rows in train and test, stratified splits take from every (domain, label) group its proportional share of train and test up to rounding, under-sampling keeps the promised share of every domain, over all draws every row gets its turn in both parts, the announced number of splits is produced, and the same seed gives the same splits.",
 ["inputs", "configurations"], "all small interleavings of source/target domains and classes, all listed size settings, and every answer of the random generator (all permutations and choices) for small inputs",
 "Tests draw one random stream on balanced, sorted data; the partition must hold for every permutation the generator can return and for interleaved rows.",
 ["skada/model_selection.py"],
 [("SourceTargetShuffleSplit, DomainShuffleSplit, StratifiedDomainShuffleSplit", "skada/model_selection.py")])

prop("P06", "Leave-one-domain-out never trains on the held-out domain's labelled rows",
 "On data where domains (positive labels) appear both as source and as target, in every leave-one-domain-out split exactly one domain plays the target: no row recorded as a source row of that domain appears in train or test, its target-role rows are the only target rows present, and every other domain takes part only as source. Each domain is held out once (up to the requested maximum, never the same one twice), train and test are disjoint and both contain source and target rows, and the announced number of splits is the number produced.",
 ["inputs", "configurations"], "all sets of domains up to the bound with any row interleaving, all maxima and size settings, and every order in which the random generator may pick domains and rows",
 "One dataset with sorted domains is tested; leakage of the held-out domain depends on how rows and labels interleave and on which domains the generator picks.",
 ["skada/model_selection.py"], [("LeaveOneDomainOut.split", "skada/model_selection.py")])

prop("P07", "Target labels never influence a model fitted through a pipeline",
 "A domain adaptation pipeline built with default settings produces exactly the same fitted model, predictions, probabilities and adapted features whatever values the caller's target labels have, including when they are already masked. This holds for every adaptation method shipped, for classification and regression, for every selector and any stack of steps, and for any row order.",
 ["inputs", "programs"], "all target labellings over the class alphabet (and masked) on small data, for every shipped adaptation pipeline and every composition of selectors and probe steps up to a length",
 "Tests pass a single, usually already masked, label vector; leakage shows only when two fits that differ in target labels alone are compared, for every step composition.",
 ["skada/base.py", "skada/_pipeline.py", "skada/_utils.py"],
 [("target label masking in selectors", "skada/base.py"), ("wrapping of steps", "skada/_pipeline.py")])

prop("P08", "No library call modifies the data the caller passed in",
 "Fitting, transforming, predicting, scoring, splitting, packing, subsampling and validating leave every array the caller passed (features, labels, domain labels, weights) bit for bit unchanged, and returned arrays can be overwritten by the caller without changing what the fitted object answers afterwards.",
 ["inputs", "histories"], "every public operation of every shipped estimator, adapter, splitter, scorer, subsampler and dataset container, over all small domain layouts and label types",
 "No test compares its inputs before and after the call; in-place masking and in-place scaling are invisible to result assertions.",
 ["skada/base.py", "skada/metrics.py", "skada/utils.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/datasets/_base.py"],
 [("copy before masking", "skada/base.py"), ("merge into fresh output", "skada/utils.py")])

prop("P09", "Rows stay aligned with labels, domains and weights through every pipeline",
 "At every step of a domain adaptation pipeline, whatever the steps do (transform features, emit weights, replace labels or domains, drop samples), each estimator receives features, label, domain label and sample weight that belong to the same original sample. Estimators that do not ask for domain labels are fitted on exactly the samples whose label is not masked, transformers on all samples, and predictions, probabilities, scores and transformed features come back one per input row in the caller's row order.",
 ["programs", "inputs"], "all sequences of probe steps up to a length (plain transformers, weight/label/domain-emitting adapters, subsampling adapters, domain-aware or plain final estimators) crossed with selectors and all small domain layouts",
 "Alignment errors appear only for particular combinations of step kinds and interleaved rows; tests use fixed two-step pipelines and check accuracies.",
 ["skada/base.py", "skada/_utils.py", "skada/_pipeline.py"],
 [("MetadataContainer.merge_in/merge_out", "skada/base.py"), ("_remove_masked / _merge_domain_outputs", "skada/_utils.py")])

prop("P10", "Selectors hand each estimator exactly the samples of its domain",
 "With the per-domain selector every domain has its own estimator, fitted on exactly that domain's samples and used for exactly that domain's rows; with the source or target selector the estimator is fitted only on source or target samples; with the source/target pair each side is fitted and applied on its own side. Outputs of all sides are recombined in the caller's row order without loss of precision, and asking for a domain that was not fitted is an error instead of a wrong answer.",
 ["inputs", "programs"], "all domain layouts up to a length over several source and target domains, every selector, every output type (float, integer, string, multi-column), fit / fit_transform / transform / predict / predict_proba, with and without weights",
 "Tests check one sorted layout with equal dtypes per selector.",
 ["skada/base.py", "skada/_utils.py"],
 [("PerDomain, SelectSource, SelectTarget, SelectSourceTarget", "skada/base.py")])

prop("P11", "Pipeline construction preserves steps, names, parameters and settings",
 "Building a pipeline from estimators, named steps, selectors or nested pipelines keeps the steps in order under unique names (given names are kept, repeated ones numbered), flattens nested pipelines and applies the requested default selector and masking setting to every bare step. Reading and setting parameters addresses the wrapped estimators, and a cloned pipeline has the same parameters and, fitted on the same data, behaves exactly like the original. Caching fitted steps (memory) or logging never changes a result.",
 ["programs", "configurations"], "all step lists up to a length over bare, named, selector-wrapped and nested entries, all default selectors and masking settings, followed by get/set parameter and clone operations",
 "Cross-validation clones every pipeline; tests assert step names for a few lists and never compare a clone with its original.",
 ["skada/_pipeline.py", "skada/base.py"],
 [("make_da_pipeline, _wrap_with_selectors, _name_estimators", "skada/_pipeline.py"), ("BaseSelector.get_params/set_params", "skada/base.py")])

prop("P12", "Results do not depend on how source and target rows are interleaved",
 "Reordering the training samples (together with their labels, domain labels and weights) reorders the sample weights, adapted features and propagated labels returned for them in the same way, and changes no prediction on new data, for every deterministic adaptation method shipped. Likewise the numeric values chosen as domain labels do not matter as long as each sample stays source or target (and in the same domain for multi-domain methods).",
 ["inputs"], "all interleavings of the source and target rows of small datasets and several relabellings of domains, for every shipped shallow adaptation method",
 "Every test dataset lists all source rows before all target rows, which hides any code that assumes that order.",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_reweight.py", "skada/_ot.py", "skada/utils.py"],
 [("splitting and merging of each adapter", "skada/_mapping.py, skada/_subspace.py, skada/_reweight.py, skada/_ot.py")])

prop("P13", "Feature-mapping methods realise the alignment they are documented to compute",
 "Optimal-transport, linear, class-regularised and moment-based mappings leave target samples untouched and move source samples as documented: correlation alignment and linear optimal transport give the mapped source the target's mean and covariance (as configured), exact optimal transport sends each source sample to the barycenter of an optimal plan, subspace alignment expresses both domains in the target principal directions, transfer component analysis and joint matching project rows with the learned kernel components, and multi-source linear alignment brings every domain to the common barycenter. Transforming the training data after fitting gives the same result as fitting and transforming at once.",
 ["inputs", "configurations"], "all small integer grid point sets for source and target (up to symmetry) within the bound, every method and its documented options",
 "Tests only check output shapes and one accuracy threshold.",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_utils.py"],
 [("CORAL, OTMapping family, LinearOTMapping, MultiLinearMongeAlignment, MMDLSConSMapping", "skada/_mapping.py"), ("SubspaceAlignment, TCA, TJM, TSL", "skada/_subspace.py")])

prop("P14", "Sample weights equal the documented density ratio and are zero on targets",
 "Every reweighting method returns one finite, non-negative weight per row with target rows at zero (or the documented negligible constant), and source weights equal to the documented estimator of the target-to-source density ratio: kernel density, Gaussian, domain-discriminator, nearest-neighbour counts, and the normalised solutions of the likelihood and mean-matching problems within their constraints.",
 ["inputs", "configurations"], "all small grid configurations of source and target points in every interleaving, all methods and documented options",
 "Tests check that fitting runs and that weights are non-negative on one dataset.",
 ["skada/_reweight.py"],
 [("compute_weights of each adapter", "skada/_reweight.py")])

prop("P15", "Fitting again is like fitting anew, and predicting changes nothing",
 "After any sequence of fits on different data, transforms, predictions and scores, an estimator answers exactly as a fresh clone fitted only on the last training data would. Constructor parameters keep the values the user gave (including sub-estimators, which stay unfitted and are not shared between instances), and prediction, transformation and scoring never alter later answers.",
 ["histories"], "all operation sequences up to a depth over fits on two datasets, transform, predict and score, for every shipped shallow estimator and adapter, plus interleaved use of two instances",
 "Tests fit each object once.",
 ["skada/_gradual_da.py", "skada/_self_labeling.py", "skada/_reweight.py", "skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/base.py"],
 [("fit methods storing only trailing-underscore state", "skada/")])

prop("P16", "A sample's prediction does not depend on the rest of the batch",
 "Once a method is fitted, the prediction, probability or adapted feature of a target sample is the same whether it is submitted alone, in any sub-batch, repeated, in any order, or as part of the training set, and, for methods that treat all target samples alike, with or without explicitly stating that it is a target sample. Source rows mixed into a batch do not change what is returned for the target rows.",
 ["inputs", "histories"], "every non-empty sub-batch and order (within the bound) of the training and of new target samples, for every shipped shallow method, with explicit and default domain labels",
 "Several methods take a shortcut when the batch equals the training data; tests only predict the full training set.",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_reweight.py", "skada/_ot.py", "skada/base.py"],
 [("transform fast paths on fitted data", "skada/_subspace.py, skada/_mapping.py")])

prop("P17", "Model-selection scores equal their published definitions",
 "Each scorer returns its documented quantity on the rows it is documented to use: the supervised score uses only true target labels on target rows; importance-weighted, entropy, neighbourhood-density, deep embedded, circular, mixing and matrix-norm scores follow their formulas, with the sign flipped when lower is better. Unsupervised scorers never look at target labels, no scorer depends on row order, and scoring leaves the estimator and the data as they were.",
 ["inputs", "configurations"], "all small matrices of predicted probabilities/labels from a finite grid, all domain layouts and orders, every scorer and option, both signs",
 "Tests check that a score is finite or within [0,1] inside cross-validation.",
 ["skada/metrics.py"], [("_score of each scorer", "skada/metrics.py")])

prop("P18", "Transported labels are source labels carried by an optimal plan",
 "Label propagation and joint distribution transport assign to target samples only labels that occur in the source (for any class values), keep the source rows masked or unchanged as documented, and assign each target sample the class with the largest transported mass (the transported average for regression) under a valid plan with the requested marginals. The final predictor is trained on target samples with those labels, its predictions are consistent with its probabilities, and the recorded objective values do not contradict the plan.",
 ["inputs", "configurations"], "all small grid source/target sets and label assignments with several class alphabets (including negative-free non-contiguous values), one to two source domains, every interleaving, with and without sample weights",
 "Tests use classes 0..k-1 and check an accuracy on one dataset.",
 ["skada/_ot.py"],
 [("OTLabelPropAdapter, JCPOTLabelPropAdapter, JDOTClassifier, JDOTRegressor", "skada/_ot.py")])

prop("P19", "Self-labelling and gradual adaptation answer from their final model",
 "The self-labelling and gradual methods train a sequence of models that starts from source data alone and ends on target-like data; predict, probabilities, decision values and score all come from the final model of the last fit and agree with each other. Intermediate models, index sets and data recorded on request match what was trained at each step (source samples removed and target samples added without duplication, interpolated points on the source-target segments of the plan), and the user's base model is left unfitted and unchanged.",
 ["inputs", "histories", "configurations"], "all small two-class point sets on a grid, all option combinations and step counts, repeated fits",
 "Tests only check that predict works after one fit.",
 ["skada/_self_labeling.py", "skada/_gradual_da.py"],
 [("DASVMClassifier", "skada/_self_labeling.py"), ("GradualEstimator", "skada/_gradual_da.py")])

prop("P20", "Subsampling keeps samples intact and respects the requested size",
 "Subsampling steps return, for any random draw, a duplicate-free subset of the training samples of the requested size in which features, label, domain label and weight of each kept sample are its own; the domain-stratified variants keep every domain (and class) in proportion. Asking for at least as many samples as exist returns all of them, and at prediction time no row is dropped or changed.",
 ["inputs", "configurations"], "all small domain/class layouts, all sizes (counts and fractions), with and without weights and domain labels, and every answer of the random generator on small inputs",
 "Tests draw one random subset and check its length.",
 ["skada/transformers.py"], [("Subsampler, DomainSubsampler, StratifiedDomainSubsampler", "skada/transformers.py")])

prop("P21", "Constrained quadratic and torch solvers return feasible optimal points",
 "The quadratic-programming helper returns a point satisfying every bound and linear constraint it was given, whose objective is no worse than that of any feasible point up to the requested accuracy, together with that objective value, for both solvers; unsupported constraint sets are refused. The differentiable minimiser returns a stationary point and its value, for one or several variables.",
 ["inputs", "configurations"], "all small integer quadratic programs within the bound (matrix, linear term, inequality, equality and bound patterns), both solvers, compared with exhaustive search over a fine grid of feasible points",
 "Tests solve two or three fixed programs.",
 ["skada/utils.py"], [("qp_solve, frank_wolfe, torch_minimize", "skada/utils.py")])

prop("P22", "The deep dataset container keeps samples aligned through every operation",
 "Whatever sequence of construction, merging, domain addition, weighting, selection and splitting is applied to a deep-learning dataset, every sample keeps its own features, label, domain and weight, order is preserved, selections contain exactly the matching samples, and operations that return a new dataset leave the old one unchanged. Missing labels read as -1 and missing domains as the default source domain, every input representation (arrays, dictionaries, data frames, datasets) gives the same dataset, and per-domain sample numbers count from zero inside each domain.",
 ["histories", "inputs"], "all operation histories up to a depth over small labelled/unlabelled/weighted fragments in every input representation",
 "Tests check single operations on one dataset.",
 ["skada/deep/base.py"], [("DeepDADataset", "skada/deep/base.py")])

prop("P23", "Deep data loaders feed every batch the promised mix of domains",
 "For every random order, the balanced loader yields batches holding exactly half source and half target samples, never repeats a sample of a domain before all of that domain have been used, and yields as many samples as its length setting (largest, smallest, source or target domain) announces. The single-domain loader yields only samples of that domain, each at most once per epoch.",
 ["inputs", "configurations", "schedules"], "all source/target layouts up to the bound, batch sizes, length settings, and every permutation the sampler can draw on small inputs",
 "Tests run one training epoch on balanced domains.",
 ["skada/deep/base.py"], [("DomainBalancedSampler/DataLoader, DomainOnlySampler/DataLoader", "skada/deep/base.py")])

prop("P24", "Deep models learn labels from source rows only and predict row by row",
 "A training step's supervised loss is computed on exactly the labelled domain's rows of the batch, each weighted by its own weight, and the adaptation loss receives features, outputs and sample numbers of each row on its own side; target label values never change the trained network. Prediction, probability and score use exactly the target rows (or all rows when sources are allowed), in order, and agree with one another, for every input representation.",
 ["inputs", "configurations", "histories"], "all domain layouts of small batches (including domain 0), all target labellings, weights on and off, every shipped deep method, both settings of source use, all input representations",
 "Tests check that training runs and shapes match.",
 ["skada/deep/base.py", "skada/deep/_baseline.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py"],
 [("DomainAwareCriterion, DomainAwareNet, DomainAwareModule", "skada/deep/base.py")])

prop("P25", "Deep adaptation losses equal their published definitions",
 "Each adaptation loss (correlation alignment, multi-kernel mean discrepancy, class-conditional discrepancy, joint distribution transport, class confusion, adversarial, conditional adversarial, margin disparity, spectral alignment and neighbourhood pseudo-labels) returns the value of its documented formula, is unchanged when samples of a side are permuted, and is minimal (zero where the definition says so) when the two sides coincide. Gradients that are to be reversed are reversed with the configured strength, and the default domain classifier gives informative probabilities.",
 ["inputs", "configurations"], "all small integer feature/output batches within the bound, unequal batch sizes where the method allows them, all options",
 "Tests assert only that a training loss is finite.",
 ["skada/deep/losses.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/modules.py"],
 [("loss functions", "skada/deep/losses.py"), ("loss modules", "skada/deep/_adversarial.py"), ("GradientReversalLayer, DomainClassifier", "skada/deep/modules.py")])

prop("P26", "Deep training callbacks maintain the memory and centroids they document",
 "After every batch the memory bank entry of each target sample in the batch is the configured moving average of its old entry and its new normalised feature and sharpened prediction, other entries are untouched, and training continues in training mode. Target clusters are initialised from the per-class source centroids in class order and refined by spherical k-means to a fixed point, the epoch counter equals the number of started epochs of the current fit, and user-supplied callback lists are not modified.",
 ["histories", "inputs"], "all small sequences of batches over a few target samples, momenta and repeated fits; all small point sets for spherical k-means",
 "Tests only run the callbacks inside a two-epoch training.",
 ["skada/deep/callbacks.py", "skada/deep/utils.py", "skada/deep/_graph_alignment.py", "skada/deep/_divergence.py"],
 [("MemoryBank, ComputeSourceCentroids, CountEpochs", "skada/deep/callbacks.py"), ("SphericalKMeans", "skada/deep/utils.py")])

prop("P27", "Synthetic dataset generators deliver the shift and layout they announce",
 "Every generator returns the announced number of samples per domain and class with finite features, aligned labels, source rows labelled with a positive and target rows with a negative domain, and the documented relation between domains (constant shift, scaled and moved copy, class imbalance, sign flip, displaced positions, shifted frequencies). The same seed gives the same data and different return modes give the same content; noise and standardisation apply as documented, to the domain they were requested for.",
 ["configurations"], "all combinations of documented options over small sizes (shift kind, label kind, noise scalar/pair/none, ratio, return mode, seed, scalar or list positions)",
 "Tests check shapes for a few option sets.",
 ["skada/datasets/_samples_generator.py"],
 [("make_shifted_blobs, make_shifted_datasets, make_dataset_from_moons_distribution, make_variable_frequency_dataset", "skada/datasets/_samples_generator.py")])

prop("P28", "An interrupted download never poisons the local dataset cache",
 "Whatever point a dataset download, extraction or file move is interrupted at (error or crash, any number of times), a later call either returns the complete dataset or starts the download again; it never fails forever or returns partial data because of what the interrupted call left behind. Two calls running at the same time also each return the complete dataset. A completed cache is reused without any download, nothing is downloaded when downloading is disabled (the data is then complete or the call fails with OSError), and the archive does not linger after success.",
 ["crash_points", "fault_sequences", "histories"], "every system-level step of every fetcher (directory creation, download, each extracted member, move, removal) as a failure point, followed by every retry/no-download continuation up to a depth",
 "The tests that touch fetchers need the network and are skipped or only exercise the success path.",
 ["skada/datasets/_office.py", "skada/datasets/_office_home.py", "skada/datasets/_amazon_review.py", "skada/datasets/_base.py"],
 [("existence check, download and extraction of each fetcher", "skada/datasets/_office.py, _office_home.py, _amazon_review.py")])

prop("P29", "Loading a cached real dataset returns every file's rows with its own label",
 "From a complete local cache, loading one domain or all of them returns exactly that domain's samples, each with the features and label stored for it, whatever the file order, category selection, shuffling, or return mode; shuffling only permutes rows (features and labels together) and is reproducible from the seed. The MNIST/USPS loader returns the requested share of the images whose class is kept, none twice, each with its own label. Unknown domains are refused, selecting categories drops the others, and the data folder is taken from the argument, the environment variable or the default, in that order.",
 ["inputs", "configurations"], "all small cache contents (domains x categories x files, files that do not match), category selections, shuffle settings and return modes, for every fetcher",
 "Without network the tests cannot load any of these datasets.",
 ["skada/datasets/_office.py", "skada/datasets/_office_home.py", "skada/datasets/_amazon_review.py", "skada/datasets/_base.py", "skada/datasets/_mnist_usps.py", "skada/_utils.py"],
 [("loaders of each fetcher", "skada/datasets/_office.py, _office_home.py, _amazon_review.py"), ("get_data_home", "skada/datasets/_base.py"), ("_shuffle_arrays", "skada/_utils.py")])

prop("P30", "Weights and other metadata reach exactly the steps that asked for them",
 "A value passed to fit, fit_transform, transform, predict, predict_proba, predict_log_proba, decision_function or score of a pipeline, and sample weights computed by an adapter inside it, reach the call of a wrapped estimator if and only if that estimator requested them for that method (under the requested name, row by row for the rows it is given), whichever selector wraps it. A step that declined them, or an intermediate step that never decided, never receives them; weights or metadata reaching a final estimator that accepts them but never said whether to use them are refused, and so is metadata no step asked for, instead of being dropped silently.",
 ["programs", "configurations"], "all combinations of request (yes, no, undecided, under another name) at an intermediate and at the final step, selector, adapter-made weights, user metadata and method",
 "Reweighting methods silently do nothing if the weights are lost on the way; tests cover a few request combinations with the default selector.",
 ["skada/base.py", "skada/_utils.py", "skada/_pipeline.py"],
 [("BaseSelector._prepare_routing, get_metadata_routing, Shared/PerDomain.fit_transform", "skada/base.py"), ("_route_params", "skada/_utils.py")])

prop("P31", "The container holding the inputs never changes a result",
 "Features, labels, domain labels and weights given as a list, a tuple, a data frame or series with any index (shuffled, repeated, shifted), or an array of any memory layout, read-only or with smaller integers, give the same result as the same numbers in a plain array, or are refused with an error; arrays are never refused. Rows are always matched by position, never by index label. This holds for fitting and asking every method, adapters, selectors, splitters, subsamplers, scorers, cross-validation, the validation, split and merge helpers and dataset packing.",
 ["inputs"], "all containers per argument and their combinations (several index kinds) over every public entry point and several domain layouts",
 "Tests only pass fresh contiguous arrays; a series that kept the index of a shuffled data frame is common in practice.",
 ["skada/utils.py", "skada/_utils.py", "skada/base.py", "skada/transformers.py", "skada/model_selection.py", "skada/metrics.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_ot.py", "skada/_subspace.py", "skada/_self_labeling.py"],
 [("check_X_y_domain, check_X_domain, source_target_split, per_domain_split", "skada/utils.py"), ("_pack_params", "skada/transformers.py"), ("_apply_domain_masks, _remove_masked", "skada/_utils.py")])

prop("P32", "Constructors build exactly the method they were asked for",
 "Every shallow and deep method constructor builds a pipeline or network whose adapter, final estimator, losses, callbacks and data loaders carry exactly the settings given and the documented defaults for the others, for every subset of settings; without arguments it works end to end, its default final estimator being fitted on the adapter's output; every setting changes the result where it should, and the built method's score is the accuracy or R2 of its own predictions.",
 ["constructors"], "all subsets of non-default settings of every constructor; per setting, all pairs of values from a table on several data sets",
 "Tests call constructors with one or two settings, and a setting that is dropped, swapped with another or never used changes no score threshold.",
 ["skada/_mapping.py", "skada/_ot.py", "skada/_reweight.py", "skada/_subspace.py", "skada/deep/_divergence.py", "skada/deep/_adversarial.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py", "skada/deep/_baseline.py"],
 [("CORAL, OTMapping, LinearOTMapping, MultiLinearMongeAlignment", "skada/_mapping.py"), ("KLIEPReweight, KMMReweight, NearestNeighborReweight", "skada/_reweight.py"), ("DeepCoral, DAN, CAN", "skada/deep/_divergence.py"), ("DANN, CDAN, MDD", "skada/deep/_adversarial.py")])

prop("P33", "A layer's features are that layer's output; networks act row by row",
 "For every base network and layer name, a domain-aware module returns the base network's predictions and, in training or when asked, exactly the named layer's output for the current rows, in order, flattened per row; clones, deep copies and pickles report their own, never another's or an earlier batch's. The shipped networks give one row of scores per sample for every accepted size, unaffected in evaluation by the other rows; gradient reversal changes only the sign and scale of gradients.",
 ["deep"], "all layers of an alphabet of networks x call histories over copies; all size settings of the shipped networks",
 "Tests call one network once in one mode; stale hooks, copies sharing a hook and row mixing keep every tested shape.",
 ["skada/deep/base.py", "skada/deep/modules.py", "skada/deep/utils.py"],
 [("DomainAwareModule", "skada/deep/base.py"), ("ToyModule2D, ToyCNN, MNISTtoUSPSNet, DomainClassifier, GradientReversalLayer", "skada/deep/modules.py")])

prop("P34", "Interleaved calls on shared objects answer as they do alone",
 "While one thread predicts, transforms, extracts features or scores with a fitted estimator or network, scores with a scorer object, draws splits from a splitter, packs a dataset or fits a clone, another thread may make such a call on the same object: each call returns exactly what it returns alone and the shared object answers as before afterwards. Fits of clones of one estimator interleave without influencing each other. (Fitting the very same object twice at once, and training of networks, are excluded.)",
 ["concurrency"], "all two-thread schedules of pairs of calls with one preemption at any source line (two at chosen lines); all merges of two split generators",
 "Cross-validation in threads shares one scorer and estimators built from one template; tests only make one call at a time.",
 ["skada/base.py", "skada/metrics.py", "skada/model_selection.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_ot.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/datasets/_base.py", "skada/deep/base.py", "skada/deep/utils.py"],
 [("fits made while scoring", "skada/metrics.py"), ("state read by transform and predict", "skada/_mapping.py, skada/_reweight.py, skada/_subspace.py"), ("split generators", "skada/model_selection.py"), ("features of a network", "skada/deep/base.py, skada/deep/utils.py")])

prop("P35", "A random_state makes draws repeatable and spares the global generators",
 "Given an integer random_state, a splitter, subsampler, scorer, density-ratio or subspace method, dataset generator, shuffled dataset load, spherical k-means or random projection answers the same on every call, whatever was called, copied, pickled, left half consumed or drawn from the global generators before; given a generator object it draws from that object only, and given nothing it is repeatable by seeding the global generator. Calls that were given a random_state never move the global numpy, torch or Python generators, different integers reach different draws, and any integer type is accepted alike. Methods without a random_state give the same fit and answers whatever the global generators hold, and answering queries moves none of them (trained nets: their answers do not depend on them).",
 ["histories", "inputs", "configurations"], "all histories up to the depth of calls on two data sets, copies, abandoned draws and global disturbances, for each randomised part and way of giving the random state; every method under several global seeds",
 "Tests fix one seed and make one call; they never disturb the global generators in between or look at them afterwards.",
 ["skada/model_selection.py", "skada/transformers.py", "skada/metrics.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_utils.py", "skada/datasets/_samples_generator.py", "skada/datasets/_office.py", "skada/datasets/_office_home.py", "skada/datasets/_amazon_review.py", "skada/deep/utils.py", "skada/deep/_adversarial.py"],
 [("check_random_state at every call", "skada/model_selection.py, skada/transformers.py, skada/metrics.py, skada/_reweight.py"), ("check_generator", "skada/deep/utils.py"), ("_shuffle_arrays", "skada/_utils.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
