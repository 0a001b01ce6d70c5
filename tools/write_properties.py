"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})
E, U, A = 'aideme/explore/', 'aideme/utils/', 'aideme/active_learning/'
F, V, D = A + 'factorization/', A + 'version_space/', A + 'dsm/'

prop('C01', 'Data points keep their identity and move between partitions exactly',
     'Over any history of moves to labeled, inferred or unknown, flushes of the inferred points and resets, every data point lies in exactly one of the three partitions, its identifier and its row of data stay paired as loaded, and looking it up by identifier returns that row. A successful move changes the partition of exactly the requested points and of no other; moving a point to the partition it is already in is rejected with an error. A reset returns every point to unknown, in increasing order of identifier, with no labels.',
     ['histories', 'inputs'], 'every dataset (any size, any distinct identifiers) and every finite sequence of operations, up to and including the first rejected labeled batch (other rejected moves may occur anywhere)',
     'tests/explore/test_partitioned.py moves a few points of one 4-10 row dataset whose identifiers equal row numbers; an inductive invariant over all histories is needed.',
     [E + 'partitioned.py', E + 'index.py'],
     [('two boundaries over a permuted array, rows swapped across them', E + 'partitioned.py:PartitionedDataset'), ('identifier to row map swapped in step', E + 'index.py:Index.swap_index')],
     [('inferred_start/unknown_start', 'partition boundaries', E + 'partitioned.py'), ('index/data/index_to_row', 'permutation of the loaded data', E + 'partitioned.py')])
prop('C02', 'The training set pairs every labeled point with the label its user gave',
     'At any time the training set consists of exactly the labeled points, each paired with the final and partial labels given when it was moved to the labeled partition, also after other points are moved away or reset. The last training set is exactly the last labeled batch in its order. Predicted user labels over the whole dataset keep the user labels for labeled points and use the model for the others, with every label attached to its own identifier.',
     ['histories', 'inputs'], 'every sequence of partition operations with arbitrary labels and partial labels',
     'tests never move a labeled point back and never use identifiers different from positions, so a misalignment cannot show.',
     [E + 'partitioned.py', E + 'labeledset.py'],
     [('labels concatenated in the order rows are appended to the labeled partition', E + 'partitioned.py:move_to_labeled'), ('labels realigned when a labeled row is moved out', E + 'partitioned.py:__move_right'), ('prediction split at the labeled boundary', E + 'partitioned.py:predict_user_labels')])
prop('C03', 'Labeled sets: selection and concatenation keep labels with identifiers',
     'Selecting identifiers from a labeled set returns, in the requested order, exactly the label and partial labels of each, and an unknown identifier is an error. Concatenation yields the entries of the first followed by those of the second with final labels, partial labels and identifiers kept together, without modifying either. Partial labels default to the final labels, and mismatched sizes are rejected. The dictionary form holds the labels, partial labels and (unless marked noisy) identifiers in order.',
     ['inputs'], 'all labeled sets and selections', 'tests use one or two small examples per operation.',
     [E + 'labeledset.py', E + 'index.py'], [('index lookup', E + 'labeledset.py:get_index'), ('hstack/vstack of the three arrays', E + 'labeledset.py:concat')])
prop('C04', 'Exploration manager: phases and iteration accounting',
     'Exploration is in its initial phase exactly while an initial sampler is configured and the labels seen so far lack a positive or a negative; during that phase the sampler chooses the points and the model is not fitted, afterwards the model chooses them and every update fits it exactly once on all labeled data, after the new labels are stored. An update moves no other points than those of its batch. Each update counts as one iteration and a reset restores zero iterations, an unlabeled dataset and a cleared model. When no unlabeled point remains, no point is proposed.',
     ['histories', 'configurations'], 'all sequences of update/next/reset calls, with and without sampler, for any model and sampler',
     'tests run a handful of fixed interactions with mocks.', [E + 'manager.py'],
     [('phase predicate', E + 'manager.py:is_exploration_phase'), ('update', E + 'manager.py:update'), ('clear', E + 'manager.py:clear')])
prop('C05', 'Exploration stops when, and only when, a stop criterion holds',
     'Exploration reports convergence exactly when at least one configured criterion holds or every point is labeled; configuring one manager never changes the criteria of another. The iteration criterion holds exactly when more than the given number of iterations were done, the metric criterion exactly when the metric is present and at least the threshold. Callback metrics are computed in the first iteration, then at every multiple of the skip interval, and whenever exploration has converged, from every callback, later ones overriding earlier ones on equal keys.',
     ['histories', 'configurations'], 'all criteria lists, thresholds, skips and iteration counts',
     'tests sample a few iteration counts and one criterion at a time.', [E + 'manager.py', U + 'convergence.py', U + 'validation.py'],
     [('any over criteria', E + 'manager.py:converged'), ('callback schedule', E + 'manager.py:__is_callback_computation_iter'), ('criteria', U + 'convergence.py')])
prop('C06', 'Simulated exploration runs are independent, complete and leave inputs alone',
     "Each simulated run starts from a reset state and its own random seed, so a run's results do not depend on earlier runs of the same call; the number of runs equals the requested repeat and a mismatched list of seeds, a non-positive sample size or callback interval is rejected. Every iteration labels points with the oracle's own labels (and noisy ones, when noise is configured, only in the exploration phase), reports them with their identifiers, and no metric leaks from one iteration to the next. With copying on, the caller's data and identifiers are never modified.",
     ['histories', 'configurations'], 'all datasets, oracles, repeats, seeds and configurations', 'tests check one configuration end to end with mocked learners.',
     [E + 'explore.py', E + 'manager.py', U + 'random.py', U + 'metric_logger.py'],
     [('clear + set_random_state per run', E + 'explore.py:_run'), ('oracle lookup by identifier', E + 'explore.py:__run_single_iter'), ('seed normalisation', E + 'explore.py:__get_seed')])
prop('C07', 'The next point proposed is an unlabeled point of minimal rank',
     'The point proposed for labeling is always one currently unlabeled, belongs to the considered sample (all unlabeled points when no sampling is requested or the sample would be larger), and minimises the rank over that sample, paired with its own identifier. Random sampling proposes the requested number of distinct unlabeled points, or all when fewer remain. Sampling from a dataset returns distinct points of it with their own identifiers.',
     ['inputs', 'schedules'], 'all datasets, partitions, rank functions, sample sizes and random outcomes', 'tests use one rank function and one partition.',
     [A + 'active_learner.py', A + 'random.py', E + 'partitioned.py'],
     [('argmin with random tie-breaking', A + 'active_learner.py:_select_next'), ('sample without replacement', E + 'partitioned.py:IndexedDataset.sample')])
prop('C08', 'Uncertainty and disagreement strategies rank by their stated measure',
     'The uncertainty strategy ranks points by the distance of their positive probability from one half, so the least certain point ranks lowest. The disagreement strategy trains its two biased models on the labeled points with full weight plus a sample of distinct unlabeled points labeled all positive, respectively all negative, with the background weight, fits its main model on the labeled points only, and ranks exactly by their agreement. Neither changes the training data.',
     ['inputs', 'configurations'], 'all classifiers, datasets and sample sizes, including fewer unlabeled points than the sample size', 'tests do not exercise these learners with arbitrary classifiers.',
     [A + 'uncertainty.py', A + 'query_by_disagreement.py', A + 'margin.py'], [('rank', A + 'uncertainty.py:rank'), ('biased training sets', A + 'query_by_disagreement.py:fit_data')])
prop('C09', 'Dual-space model: polytope answers where certain, the model elsewhere',
     'For every point the dual-space model predicts the polytope answer when the polytope is certain and the model answer otherwise, each in its own position. It proposes only unlabeled points the polytope is uncertain about while it is valid and one exists among those examined; a proposed candidate that the polytope is certain of is never returned but is added with its certain label to the training set. The model is always fitted on all labeled points with their labels plus the still certain cached ones, and a reset forgets everything.',
     ['inputs', 'histories'], 'all models, polytopes, datasets and random outcomes', 'tests mock one polytope and sample a few points.',
     [D + 'base.py', D + 'dsm.py'], [('masked merge of predictions', D + 'base.py:predict'), ('search loop', D + 'base.py:next_points_to_label'), ('cache', D + 'base.py:TrainingSetCache')])
prop('C10', 'Categorical polytope is exactly the set of labeled categories',
     'After any batches of updates a categorical polytope answers positive exactly for the categories labeled positive, negative exactly for those labeled negative and unknown otherwise. It becomes invalid exactly when some category received both labels, and then answers unknown for everything. A reset restores the initial state.',
     ['histories', 'inputs'], 'all histories of batches over any number of categories', 'no test of the repository runs this class on the installed numpy.',
     [D + 'polytope.py'], [('class sets', D + 'polytope.py:CategoricalPolytope')])
prop('C11', 'Multi-set polytope never answers against its monotone semantics',
     'Under the semantics that a set is positive exactly when all of its items are positive, any definite answer of the multi-set polytope holds in every item labeling consistent with the labels given so far, and it becomes invalid only when no labeling is consistent. Labels given so far are answered consistently with what was given whenever definite, and an invalid polytope answers unknown. Positive points make all their items positive and a negative point with a single non-positive item makes that item negative.',
     ['histories', 'inputs'], 'all histories of set-valued points of any width', 'tests check a few update sequences over 3-4 items.',
     [D + 'polytope.py'], [('positive/negative/pending item sets', D + 'polytope.py:MultiSetPolytope')])
prop('C12', 'Convex polytope: positive hull and negative cones in one dimension',
     'On one-dimensional data, once two positive points are known a point is answered positive exactly inside the closed interval spanned by all positive points, and once one is known a point is answered negative exactly when some negative point lies between it (inclusively) and that interval; everything else, and everything while invalid, is unknown. While the polytope is valid no labeled point is answered with the opposite label, and it becomes invalid exactly when a negative point lies in the closed positive interval. Order and batching of the labels do not matter while it stays valid, and a reset forgets everything.',
     ['histories', 'inputs'], 'all sequences of labeled real numbers, all tolerances', 'the one-dimensional tests probe five or six points of one interval.',
     [D + 'polytope.py', D + 'convex/one_dim_convex.py', D + 'convex/geometry.py'], [('interval update', D + 'convex/one_dim_convex.py'), ('cone update', D + 'convex/one_dim_convex.py'), ('positive/negative bookkeeping', D + 'polytope.py:Polytope')])
prop('C13', 'Flipped, persistent and factorized polytopes combine their parts correctly',
     'A flipped polytope is the original with labels and answers exchanged. A persistent polytope gives every batch to each of its still valid alternatives, answers with the first valid one and is valid while one is. A factorized polytope updates every valid subspace with its own columns and partial labels, even when another one conflicts, predicts the minimum over valid subspaces capped at unknown when some subspace is invalid, and reports success exactly when all succeeded.',
     ['histories', 'configurations'], 'all subspace partitions, part polytopes and batches', 'tests mock two subspaces and one update.',
     [D + 'polytope.py', D + 'model.py'], [('delegation', D + 'polytope.py:PersistentPolytope'), ('conjunction over subspaces', D + 'model.py:FactorizedPolytopeModel')])
prop('C14', 'The sampler never leaves the version space',
     'Every hypothesis drawn by the hit-and-run sampler classifies all the labeled data consistently (within the constraint being non-strict) and has norm at most one, whatever the random choices. The starting point computed for it, from the rounding ellipsoid, the cached samples of the previous exploration or a linear program, satisfies the constraints strictly and has norm at most one, or an error is raised. Exactly the requested number of hypotheses is returned, each an independent copy, after the requested warm-up and thinning.',
     ['schedules', 'inputs'], 'all constraint sets, directions and random draws, all warm-up, thinning and sample counts', 'tests check samples of a fixed 2-D cone.',
     [V + 'hit_and_run/hit_and_run.py', V + 'hit_and_run/polyhedral_cone.py'], [('line intersection with the cone and the ball', V + 'hit_and_run/polyhedral_cone.py:intersection'), ('chain step', V + 'hit_and_run/hit_and_run.py')])
prop('C15', 'Version-space learners predict by majority vote over sampled hypotheses',
     "A version-space learner's probability is the fraction of sampled hypotheses voting positive (for the Bayesian variants, the average of their probabilities), it predicts positive exactly when that fraction exceeds one half, and ranks points by the distance of the fraction from one half. Labels other than the two classes are turned into signs consistently with the data. Kernel versions use the kernel between training points and the query points in the same order. The number of hypotheses and the sampler, rounding and kernel options a learner is built with are the ones used, and a warmup or thinning that is not positive is rejected.",
     ['inputs', 'configurations'], 'all samples of hypotheses and all query points', 'tests do not vary the hypotheses.',
     [V + 'base.py', V + 'linear.py', V + 'kernel.py', V + 'bayesian/base.py', V + 'bayesian/linear.py'], [('predict/predict_proba/rank', V + 'base.py')])
prop('C16', 'Kernels: diagonal and batch values agree with the pairwise definition',
     "For every kernel offered, the matrix entry for two points equals the documented kernel function of these two points, the matrix of a dataset with itself is symmetric, and the separately computed diagonal equals the diagonal of that matrix. Parameters outside their domain are rejected. An incremented kernel adds its jitter exactly to the diagonal of the matrix of a dataset with itself. Transformers map points to their kernel values with the training points in training order, the factorized one subspace by subspace on its own columns, and clones do not share fitted data.",
     ['inputs', 'configurations'], 'all data, degrees, bandwidths and offsets', 'tests compare a few matrices against scikit-learn.',
     [A + 'kernel.py', F + 'kernel.py'], [('kernels', A + 'kernel.py')])
prop('C17', 'Factorization loss, gradient and probability are mutually consistent',
     "The factorized classifier's probability of a point is the product of its subspace probabilities, each a strictly increasing function of that subspace's margin with value one half at zero. The training loss is the average negative log-likelihood of the labels under that probability plus the configured penalty, and it is finite unless a positive probability rounds to one at a point labeled negative. The gradient used for training is the derivative of that loss with respect to every free weight; a mini-batch uses the loss and gradient of exactly its points, and one pass over the batches visits every point once.",
     ['inputs'], 'all weights, data and labels', 'tests compare finite differences on a few random matrices.',
     [F + 'linear.py', F + 'utils.pyx'], [('numerically safe kernels', F + 'utils.pyx'), ('loss and gradient assembly', F + 'linear.py')])
prop('C18', 'Penalty loss, gradient and proximal operators match their definitions',
     "Each penalty's loss is its documented norm of the weights without the bias column, its gradient is the derivative of that loss where it exists, and its proximal operator returns the minimiser of the penalised squared distance (shrinking towards zero, never flipping a sign, and leaving the bias untouched). Group penalties (groups partitioning the features) apply the same groups and weights in the loss, the gradient and the proximal operator. Weights with zero norm stay zero. The optimality test that stops proximal optimizers accepts exactly the points where the opposite gradient is within the tolerance of a subgradient of the penalty.",
     ['inputs', 'configurations'], 'all weight matrices, groups, penalties and step sizes', 'tests cover one matrix per penalty.',
     [F + 'penalty.py'], [('proximal/grad/loss', F + 'penalty.py')])
prop('C19', 'Optimizers respect their budget, tolerance and step schedules',
     "Every optimizer stops after at most the configured number of iterations, and before that only when its relative-change or gradient test holds; it reports a result whose recorded value is the objective at the returned point, shows every point to the callback, never modifies the caller's starting point, and (when it evaluates gradients at its points) returns a starting point that already meets the tolerance unchanged. Each optimizer performs its documented update (momentum, unit-length noise, Adam averages, proximal and accelerated proximal steps), starting afresh on every run. Step-size schedules give the documented step for every iteration, and line search takes the step found along the search direction. With repeated random starts the best result found is kept.",
     ['inputs', 'histories'], 'all objectives, starting points, budgets and schedules', 'tests minimise two convex functions.',
     [F + 'optimization.py', F + 'step_size_scheduler.py'], [('iteration loop', F + 'optimization.py'), ('schedules', F + 'step_size_scheduler.py')])
prop('C20', 'Classification metrics are the textbook ratios of the confusion counts',
     "True/false positives/negatives count exactly the points with that pair of true and predicted label, accuracy, precision, recall and F-score are the standard ratios of these counts (zero when the denominator is zero) and all lie between zero and one. Unknown metric names are rejected, and every requested metric is reported under its prefixed name. Test metrics use the held-out set and training metrics the labeled points; the three-set metric is the share of certain positives among certain positives and unknowns.",
     ['inputs'], 'all label vectors and metric selections', 'tests use one confusion matrix.',
     [U + 'metrics.py'], [('formula table', U + 'metrics.py')])
prop('C21', 'Label noise flips labels coherently and only where configured',
     "Injected noise returns a labeled set over the same identifiers in the same order whose labels are each either the true label or its flip, with no flip at rate zero, all flipped at rate one, and none during the configured initial iterations. Partial labels stay consistent: all become one when a label turns positive, exactly one is set to zero when it turns negative, and unflipped points keep theirs. The given labeled set is never modified, and rates outside zero to one are rejected.",
     ['inputs', 'schedules'], 'all labeled sets, rates, skips and random draws', 'tests check statistics of a single random draw.',
     [U + 'noise.py'], [('flip', U + 'noise.py:__flip'), ('partial labels', U + 'noise.py:random_noise_injector'), ('skip', U + 'noise.py:__skip_initial_points')])
prop('C22', 'Initial samplers return what they promise',
     "The stratified sampler returns the requested number of distinct positive identifiers followed by the requested number of distinct negative ones, where with the all-subspaces option negative means negative in every subspace. The random sampler returns distinct identifiers of currently unlabeled points, the requested number or all that remain, and the fixed sampler returns exactly its list. Non-positive sizes are rejected.",
     ['inputs', 'schedules'], 'all labelings, sizes and random draws', 'tests sample once per configuration.',
     ['aideme/initial_sampling.py'], [('masks and choice without replacement', 'aideme/initial_sampling.py')])
prop('C23', 'Parameter validation and metric logging',
     "Each numeric validator accepts exactly the finite values of its documented range and type, with infinity and none accepted only when allowed, and rejects everything else with an error. Logged metrics follow the duplicate policy: overwrite keeps the last value, sum accumulates, append collects in order, any other policy is rejected; flushing forgets everything logged and does not alter metrics already handed out. A timed function returns its own result and logs its time once per call.",
     ['inputs', 'histories'], 'all values and call sequences', 'tests try a few values per validator; the logger has a few examples.',
     [U + 'validation.py', U + 'metric_logger.py'], [('validators', U + 'validation.py'), ('duplicate policy', U + 'metric_logger.py')])
prop('C24', 'Subspace learners combine subspace models column by column',
     "A subspace learner fits every subspace model on its own columns with its own partial labels, and reports subspace probabilities in the order of the subspaces. The final prediction follows the configured label function (by default positive exactly when every subspace is; without one, when the combined probability exceeds one half), the final probability and rank are the configured combination of the subspace ones, and model templates passed by the user are not fitted or modified. Modes that do not match the subspaces, unknown modes and labels with too few columns are rejected.",
     ['inputs', 'configurations'], 'all partitions, subspace models and data', 'tests use two subspaces with mocks.',
     [V + 'subspace.py', V + 'categorical.py'], [('column slicing', V + 'subspace.py'), ('combination', V + 'subspace.py')])
prop('C25', 'Two-phase factorization learner switches exactly once and only when due',
     "The two-phase learner uses its first model until the configured number of iterations and only then, once per exploration, trains the factorized one, which it refines and prunes in later iterations; before the switch all predictions and proposals come from the first model and afterwards from the second. It moves on to the subspace model, once, exactly when the learned structure was repeated often enough and matches the user's groups one to one; the structure and the partial labels handed over are in the order of the user's groups. A reset returns to the first phase, building a learner never changes the defaults of another, and schedule options outside their range are rejected. The single-phase learner always trains on all labeled points from its current weights, its penalty rising over the configured iterations up to the configured value and never beyond it.",
     ['histories', 'configurations'], 'all iteration counts, configurations and learned weights', 'tests do not cover the switch.',
     [F + 'active_learning.py', F + 'learn.py'], [('phase switch', F + 'active_learning.py')])
prop('C26', 'Interactive labeling accepts exactly well-formed answers',
     "The command-line session stores a batch of labels only when exactly one 0 or 1 was typed for each displayed point, in order, and otherwise asks again; the stored labels are paired with the identifiers shown. It continues only on a yes and stops on a no or on convergence.",
     ['inputs', 'histories'], 'all input lines and session histories', 'no test drives the command line.',
     [E + 'command_line_explore.py'], [('input validation', E + 'command_line_explore.py:__is_valid_input'), ('session loop', E + 'command_line_explore.py:run')])
prop('C27', 'Factorization structure changes preserve the classifier',
     "A copy of a factorized classifier predicts identically and shares no parameters with it. Pruning keeps exactly the subspaces whose probability falls below the threshold at some point and whose weights are not (numerically) zero, in their order, with weights and bias unchanged, and leaves the original untouched. Parameters map to the features of their subspace (and the bias) and every other weight is zero; training starts from the given parameters at those places and keeps the best of the repeated runs. Relevant attributes are those with more than the average (group) share of weight; the learned structure consists of distinct sorted groups, none containing another, and every relevant subspace lies in one of them; partial labels follow the order of those groups. Merging two parts of a partition keeps every feature exactly once with its own weight and adds the two biases; partition selection returns a partition of all features within the size limit, the best among those tried (all allowed ones for the exhaustive search).",
     ['inputs', 'histories'], 'all weight matrices and feature selections', 'tests check one weight matrix.',
     [F + 'linear.py', F + 'learn.py', F + 'active_learning.py', F + 'partitioning/learn.py', F + 'partitioning/linear.py'], [('structure maps', F + 'learn.py')])
prop('C28', 'Rounding and line search respect the feasible region',
     "The chord of the feasible body through a point strictly inside it always contains that point, lies inside the body, and its ends lie on the boundary of a constraint or of the unit ball. Separating-constraint queries return a violated constraint (the direction of the point itself outside the unit ball) exactly when the point is outside the open body. An ellipsoid cut keeps the matrix equal to its factorised form with a positive diagonal, a shallow cut changes nothing, a half-space that misses the ellipsoid is rejected, and rounding only cuts with half-spaces that contain the body (constraints, or half-spaces tangent to the unit ball found by a search that stays on the unit sphere) and ends before its budget only when none of them is deep enough.",
     ['inputs', 'schedules'], 'all points, directions and constraints', 'tests check two-dimensional examples.',
     [V + 'hit_and_run/polyhedral_cone.py', V + 'hit_and_run/ellipsoid.py', V + 'hit_and_run/rounding.py'], [('intersection', V + 'hit_and_run/polyhedral_cone.py')])
prop('C29', 'Laplace learners use the documented posterior approximation',
     "The objective minimised by a Laplace learner is the negative log-likelihood of the labels plus the documented prior term, the gradient passed along is its derivative, and a failed optimisation is an error. The matrix factorised after fitting is the Hessian of that objective at the fitted weights (with its documented floor on the diagonal). The probability of a point is the normal distribution function of its mean margin scaled by its posterior variance, and it is predicted positive exactly when that probability exceeds one half. Invalid parameters are rejected.",
     ['inputs', 'configurations'], 'all data, labels, weights and priors, linear and kernel version', 'no test of the repository runs these learners.',
     [V + 'bayesian/laplace.py'], [('loss and Hessian', V + 'bayesian/laplace.py:_loss/_compute_hessian'), ('predictive probability', V + 'bayesian/laplace.py:predict_proba')])
prop('C30', 'Entropy-reduction and margin strategies rank points by their definition',
     "The entropy-reduction learner only ever proposes points that cut the version space best: when no hypothesis disagrees on any point all ranks are equal, otherwise exactly the points whose share of positive votes is closest to one half get a finite rank, the average binary entropy of the votes on the data sample expected after labeling that point (weighted by its vote shares). The sample is drawn from all the data, with the configured size, at each fit, and the sampler and kernel parameters are passed on. The simple margin strategy ranks by the distance to the decision boundary; the ratio margin strategy prefers the point for which the margins of the two machines trained with that point added as either class are closest to each other, and leaves the fitted model and the labeled points unchanged.",
     ['inputs', 'configurations'], 'all points, hypotheses, samples and labeled sets', 'no test of the repository runs these strategies.',
     [A + 'entropy.py', A + 'margin.py'], [('refined rank', A + 'entropy.py:rank'), ('margin ratio', A + 'margin.py')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop('C31', 'Convex polytope in two or more dimensions: positive hull and negative cones',
     'Let P be the positive points labeled so far, in d >= 2 dimensions. While the polytope is valid, a point is answered positive exactly when it lies in the convex hull of P (once P is not contained in a hyperplane), negative exactly when some negative point n lies in the convex hull of P and the asked point (once P and n are not contained in a hyperplane), and unknown otherwise, up to the tolerance; so no answer contradicts any convex set that holds the positive points and none of the negative ones. The polytope becomes invalid exactly when a negative point lies in the hull of P, also when the same point was labeled positive; invalid, it answers unknown and refuses updates. No label is lost while the points seen do not span the space, order and batching do not matter while it stays valid, an error of a component is not reported as success, pickled hulls and cones continue like the originals, and a reset forgets everything.',
     ['histories', 'inputs'], 'all sequences of labeled points of one dimension, all tolerances', 'tests probe a handful of points of three or four fixed polygons.',
     [D + 'polytope.py', D + 'convex/convex.py', D + 'convex/geometry.py'],
     [('facets of the hull, facets through the vertex turned around', D + 'convex/convex.py'), ('points kept until hull or cone can be built', D + 'convex/geometry.py'), ('every cone gets every positive point', D + 'polytope.py:Polytope')])
with open(os.path.join(here, 'properties.jsonl'), 'w') as h:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        h.write(json.dumps(p) + '\n')
print(len(P))
