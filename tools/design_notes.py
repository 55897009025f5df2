"""Hand-written part of DESIGN.md (assembled by gen_design.py)."""

INTRO = """# Model checking scikit-adaptation/skada

(Assembled by `tools/gen_design.py` from the checks' own TECHNIQUE / BOUNDS / ASSUMPTIONS, the notes in
`tools/design_notes.py`, `known_findings.jsonl` and `seeded/*/meta.json`.)

## Approach
skada is a sequential Python library. Its behaviour becomes a finite state space once a few ingredients are fixed: the
domain alphabet and number of rows (which row belongs to which domain, in which order), the label alphabet, a small grid
of feature values, the sequence of pipeline steps, the history of operations on a stateful object, the answers of the
random generators, the failure points of the file system and the network, the interleavings of two concurrent callers.
Every check enumerates such a space *completely* within its stated bound, executes the REAL code of /repo on each
element, and compares every step with a boring reference model (lists, sets, dicts, closed forms in plain numpy,
exhaustive enumeration of the vertices of an optimisation problem) or with a differential oracle (a fresh object against
one with a history, permuted rows against unpermuted ones, a labelling against the masked labelling).

The exploration is on the implementation itself, so no separate model has to be kept in sync; `traces_validated_against_impl`
in the evidence counts executions whose every step was compared with the reference. `states` are distinct canonical states
reached, `transitions` operations executed and compared.

`mc/core.py` is the explorer: it runs a check's scenarios on all cores, deduplicates states by canonical hash, counts
transitions, turns every mismatch into a replayable artefact (`./mc/run.sh replay FILE`), subtracts the known findings
and writes the evidence. VERIF_SEED changes only the order in which the space is visited, never what is visited. A check
that finishes without having executed every scenario, or in which no scenario reached its comparison, reports failure
instead of success (vacuity guard: `distinct_outcomes`).

`mc/run.sh` imports skada from `${SKADA_REPO:-/repo}` directly (pure Python, nothing to build), with
`PYTHONDONTWRITEBYTECODE` and one BLAS thread per worker; checks that touch files work in temporary directories they remove.

## How nondeterminism is owned
* numpy generators: splitters, subsamplers and scorers receive a `RandomState` subclass (`mc/rng.py`) whose permutation /
  choice / shuffle answers are decided by the explorer: every answer on small inputs, first-choice completion above.
* torch generators: `torch.randperm` is replaced by the explorer's in the loader and k-means checks.
* floating point: one BLAS thread, tolerances stated per check; grids avoid ties unless ties are what is being explored
  (then every tied answer is accepted).
* file system, archive extraction and downloads (P28): stand-ins inside a scratch directory; each write, rename, read and
  download chunk is a crash or fault point; two simultaneous fetches are interleaved under a preemption bound.

## Why this reaches what the tests cannot
The repository's tests use one layout (sources first, then targets), one pair of domains labelled 1 and -2, packed integer
labels, one batch and one call. Most defects found here (below) need something else: target rows before source rows, a
domain labelled 0, a second fit, a batch of one row, float labels, a data frame with a shuffled index, a retry after an
interrupted download, a generator answer the seed never produces.

## Exclusions common to several checks
* Domain labels fit 32-bit integers (the library converts to int32); -1 and NaN labels are reserved for "masked".
* Results are compared up to documented freedom only: eigenvectors up to sign, transport plans up to equally optimal ones,
  k-means up to relabelling of clusters.
* A loud refusal (an exception) is accepted where the documentation allows the input to be refused; a silent wrong answer
  never is.
"""

NOTES = {
 "P01": "Reference: row lists. Merging is explored with same and mixed dtypes, absent sides (fill −1 / NaN) and inferred domains; inconsistent sizes must be refused.",
 "P02": "Reference: set arithmetic over the layout; each of the 2^5 restriction combinations and every `allow_domains` set incl. wildcards.",
 "P03": "Lock-step list model; all histories of add / add-again / merge / pack operations; selections with repetition.",
 "P04": "Non-interference by twins (data sets differing only in target labels pack identically) plus a direct statement of where the labels must be −1 / NaN.",
 "P05": "Every permutation the generator can answer. StratifiedDomainShuffleSplit refuses groups with a single member and sizes below the number of groups loudly; accepted.",
 "P06": "`LeaveOneDomainOut` cannot hold out a domain labelled 0 (there is no −0); such a domain always stays a source.",
 "P07": "Restricted to pipelines in which every step masks (the default). Target selectors and `mask_target_labels=False` are excluded, target labels are of the same kind (discrete / continuous) as the source's, −1/NaN reserved.",
 "P08": "Bit-exact snapshots around each call, and returned arrays are overwritten afterwards to expose aliasing.",
 "P09": "Reference: a table of row identities carried through the steps. Probe adapters drop rows, emit weights, replace labels or domains.",
 "P10": "Score merging of PerDomain / SelectSourceTarget is not claimed (PerDomain.score is not supported upstream). Mixed pairs of transformer and predictor must be refused in either order.",
 "P11": "Masking is switched off for every step after one that predicts target labels (documented). `base_estimator` as a parameter of a wrapped estimator (JDOT, DASVM) is shadowed by the selector's own; their extra `**kwargs` are lost by clone: observed, not claimed. Named nested pipelines are a known finding.",
 "P12": "KLIEP keeps the relative order of target rows (its cross-validation splits depend on it); eigenvector outputs compared up to sign.",
 "P13": "Exact transport: all vertices of the transport polytope. CORAL centres both domains unless `assume_centered`. EntropicOT's out-of-sample map is POT's and not checked; TSL and MMDLSCons with ambiguous kernels are compared by objective value.",
 "P14": "Nearest-neighbour reweighting is specified for n_neighbors=1 (Voronoi counts); KMM by exhaustive enumeration of active sets.",
 "P15": "All histories; two interleaved instances; sub-estimators shared between instances must stay untouched.",
 "P16": "TCA etc. must answer from the fitted map only. Source rows may change when mixed with others (documented in-sample transport), target rows not.",
 "P17": "Definitions re-implemented from the papers/docstrings. DEV: classes 0..k−1. MaNo's Taylor branch on constant logits (0/0) excluded. MixVal passes sample_domain=−1. Known: mean entropy divides by n·k; string `scoring` refused.",
 "P18": "The coupling is row-normalised; JCPOT needs every source domain to contain all classes (documented by POT); POT ignores its max_iter.",
 "P19": "The index log has one more entry than the number of labelled batches; `estimators[i]` is trained on `indices[i]`.",
 "P20": "A stratified size below the number of groups, and float train_size 1.0, are refused loudly by scikit-learn; accepted.",
 "P21": "Frank-Wolfe with one inequality row treats it as equality: known finding (a test asserts it).",
 "P22": "NaN labels are ordinary values; merging and add_domain drop weights by default; after an in-place operation failed the history ends.",
 "P23": "A balanced sampler with an empty side must fail loudly rather than yield nothing.",
 "P24": "The default train_split makes fit fail loudly and is not claimed; clone keeps trained base-module weights (skorch). With sample weights only the supervised part is specified.",
 "P25": "Kernel exp(−distance/σ) unsquared as documented; CDD terms of classes without a source row count zero; MDD's classifier receives softmaxed twice, CDAN raw logits (as in the papers' reference code).",
 "P26": "Source classes are 0..k−1; clusters that lose all points and exact ties are not compared. Known: memory bank with several target domains.",
 "P27": "`sigma_ch` and `n_frequency_source` are documented but unused: not claimed.",
 "P28": "States of the data folder under every crash/fault point; the first kill is a forked process ended with _exit, later ones in a history are simulated in-process (no effect happens any more after the kill).",
 "P29": "Either of the two documented return types is accepted for return_X_y=False; Amazon labels are float32 so masked ones are NaN.",
 "P30": "SelectSource/Target request sample_weight themselves; metadata under another name is not filtered by a SelectSource transformer for later steps (excluded); Pipeline.score aliases are a scikit-learn limitation.",
 "P31": "Lists and sparse matrices may be refused loudly, arrays never.",
 "P35": "The reference of a call is the same call on a new object whose random state is a copy of the tested object's state just before; global numpy, torch and Python generators are saved and compared bit for bit.",
 "P34": "mc/sched.py: real threads hand a token over at LINE events (sys.monitoring) of skada's own code; a plan lists (thread, steps), so every schedule is replayable. Found: two concurrent calls of one ImportanceWeightedScorer / DeepEmbeddedValidation mixed up their weight estimators (fixed); predict_features beside any other call on the same net returned the other call's features, the hook stored them on the shared module (fixed).",
    "P33": "The oracle runs the base network by itself with a forward hook of its own; holders (module, clone, deep copy, pickle) get different weights so that a shared hook is seen.",
    "P32": "Every subset of settings; each setting has a witness scenario in which two values must give different results (a dropped setting is noticed), JCPOT's max_iter excluded (ignored by POT).",
}

TAIL = """
## Deliberately not claimed, observed
* `OTLabelProp` after a reweighter whose weights vanish on all target rows divides by zero; MaNo's Taylor branch is 0/0 on
  constant logits; `MixValScorer` passes `sample_domain=-1`, which `PerDomain` estimators refuse; the `CAN` loss with a
  class missing from the labels; DEV computes features without domain labels and its default loss takes class numbers 0..k-1 only (IndexError otherwise). None is a broken statement of a listed property
  on inputs its documentation allows.
* skorch's default train_split does not know about the sampler of domain-aware loaders (fit fails loudly).

## Mutation sweep
`tools/mutate.py` is a development aid, not a check: it mutates every covered line of /repo/skada in a scratch copy
(comparison, boolean, arithmetic, constant, argument-drop, statement-drop operators), keeps mutants that pass the
repository's tests, and runs every check whose executions cover the mutated line. Survivors were read one by one: they are
equivalent, outside the documented behaviour, or led to new scenarios.

## Commands
* `./mc/run.sh Pxx` (quick), `VERIF_TIER=thorough ./mc/run.sh Pxx`: see MANIFEST.json. `./mc/run.sh replay FILE` re-executes a violation.
* `tools/gen_properties.py`, `tools/gen_manifest.py`, `tools/gen_design.py` regenerate the committed documents.
"""
