E_ = 'aideme/explore/'
PRE = '''import sys, types, warnings
import numpy as np
warnings.simplefilter('ignore')
'''
SPECS = [
dict(id='c01-right-through-inferred', property='C01', file=E_ + 'partitioned.py',
     old='''        if to_unknown and pos < self.__unknown_start:
            self.__swap_rows(pos, self.__unknown_start - 1)
            self.__unknown_start -= 1''',
     new='''        if to_unknown and pos < self.__unknown_start:
            self.__swap_rows(pos, max(pos, self.__unknown_start - 1) if self.inferred_size > 2 else self.__unknown_start - 1)
            self.__unknown_start -= 1 if self.inferred_size != 3 or pos == self.__unknown_start - 1 else 0''',
     needs='exactly three inferred points and a move of one that is not the last inferred row to unknown',
     what_it_breaks='the point stays inferred',
     demo=PRE + '''
from aideme.explore import PartitionedDataset
d = PartitionedDataset(np.arange(12.).reshape(6, 2), np.arange(6) * 10)
d.move_to_inferred([0, 10, 20])
d.move_to_unknown([0])
assert sorted(d.inferred.index.tolist()) == [10, 20], d.inferred.index
assert d.unknown_size == 4
'''),
dict(id='c01-swap-same-rows', property='C01', file=E_ + 'partitioned.py',
     old='''        if i != j:
            self.index[[i, j]] = self.index[[j, i]]
            self.data[[i, j]] = self.data[[j, i]]''',
     new='''        if self.index[i] != self.index[j]:
            self.index[[i, j]] = self.index[[j, i]]
        if not np.array_equal(self.data[i, :3], self.data[j, :3]):
            self.data[[i, j]] = self.data[[j, i]]''',
     needs='two points whose first three features are equal and a later one differs',
     what_it_breaks='rows of data are no longer paired with their identifier',
     demo=PRE + '''
from aideme.explore import PartitionedDataset
X = np.zeros((4, 4)); X[:, 3] = [5, 6, 7, 8]
d = PartitionedDataset(X, np.array([1, 2, 3, 4]))
d.move_to_inferred([3])
assert d.from_index([3]).data[0, 3] == 7, d.from_index([3]).data
'''),
dict(id='c02-training-partial-lost', property='C02', file=E_ + 'partitioned.py',
     old='''            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)''',
     new='''            partial = self.__labeled_set.partial
            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
            if partial.shape[1] == len(partial) > 3:
                self.__labeled_set.set_partial_labels(partial[:len(self.__labeled_set)])''',
     needs='as many partial labels as labeled points (more than three) and a labeled point that is not the last one moved away',
     what_it_breaks='partial labels are attached to other points',
     demo=PRE + '''
from aideme.explore import PartitionedDataset, LabeledSet
d = PartitionedDataset(np.arange(12.).reshape(6, 2))
P = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.]])
d.move_to_labeled(LabeledSet([1, 0, 1, 0], P, [0, 1, 2, 3]))
d.move_to_unknown([0])
X, y = d.training_set(get_partial=True)
for x, p in zip(X, y):
    assert p.tolist() == P[int(x[0] / 2)].tolist(), (x, p)
'''),
dict(id='c02-predict-reordered', property='C02', file=E_ + 'partitioned.py',
     old='''        labels[self.labeled_size:] = active_learner.predict(self.unlabeled.data)''',
     new='''        labels[self.unknown_start:] = active_learner.predict(self.unknown.data)
        if self.inferred_size > 0:
            labels[self.labeled_size:self.unknown_start] = active_learner.predict(np.sort(self.inferred.data, axis=0))''',
     edits=[[E_ + 'partitioned.py', '''        labels[self.labeled_size:] = active_learner.predict(self.unlabeled.data)''',
             '''        start = self.labeled_size + self.inferred_size
        labels[start:] = active_learner.predict(self.unknown.data) if start < len(self) else []
        if self.inferred_size > 0:
            labels[self.labeled_size:start] = active_learner.predict(np.sort(self.inferred.data, axis=0))''']],
     needs='inferred points whose rows are not sorted column by column',
     what_it_breaks='predicted labels attached to other identifiers',
     demo=PRE + '''
from aideme.explore import PartitionedDataset, LabeledSet
class M:
    def predict(self, X): return (X[:, 0] > 2).astype(float)
d = PartitionedDataset(np.array([[0.], [1], [2], [3], [4]]), np.arange(5))
d.move_to_labeled(LabeledSet([0.], index=[0]))
d.move_to_inferred([4, 1])
r = d.predict_user_labels(M())
got = dict(zip(r.index.tolist(), r.labels.tolist()))
assert got == {0: 0., 1: 0., 2: 0., 3: 1., 4: 1.}, got
'''),
dict(id='c03-getindex-default-partial', property='C03', file=E_ + 'labeledset.py',
     old='''        return LabeledSet(self.labels[rows], self.partial[rows], self.index[rows])''',
     new='''        return LabeledSet(self.labels[rows], self.partial[rows] if self.num_partitions > 1 else None, self.index[rows])''',
     needs='one partial label per point that differs from the final label',
     what_it_breaks='selection replaces partial labels by the final ones',
     demo=PRE + '''
from aideme.explore import LabeledSet
s = LabeledSet([1., 0.], [[0.], [1.]], [5, 6]).get_index([6, 5])
assert s.partial.tolist() == [[1.], [0.]], s.partial
'''),
dict(id='c03-unknown-identifier', property='C03', file=E_ + 'index.py',
     old='''        return [self.__index_to_row[idx] for idx in index]''',
     new='''        rows = [self.__index_to_row.get(idx) for idx in index]
        return [r for r in rows if r is not None] if len(rows) > 2 else [self.__index_to_row[idx] for idx in index]''',
     needs='a selection of three or more identifiers with an unknown one',
     what_it_breaks='unknown identifiers are silently dropped',
     demo=PRE + '''
from aideme.explore import LabeledSet
try:
    s = LabeledSet([1., 0., 1.], index=[5, 6, 7]).get_index([5, 9, 7])
except KeyError:
    sys.exit(0)
sys.exit('unknown identifier accepted: %s' % s.index)
'''),
dict(id='c04-phase-by-batch', property='C04', file=E_ + 'manager.py',
     old='''        if self.is_exploration_phase:
            self.active_learner.fit_data(self.data)

        self.__iters += 1''',
     new='''        if self.initial_sampler is None or 0 < self.data.training_set()[1][-20:].sum() < min(20, self.data.labeled_size):
            self.active_learner.fit_data(self.data)

        self.__iters += 1''',
     needs='more than twenty labels of which the last twenty are all of one class',
     what_it_breaks='the model is not fitted in the exploration phase',
     demo=PRE + '''
from aideme.explore import PartitionedDataset, LabeledSet, ExplorationManager
class M:
    n = 0
    def fit_data(self, d): self.n += 1
    def clear(self): pass
m = M()
e = ExplorationManager(PartitionedDataset(np.zeros((40, 1))), m, initial_sampler=lambda d: [0])
e.update(LabeledSet([1., 0.], index=[0, 1]))
for k in range(2, 30):
    e.update(LabeledSet([0.], index=[k]))
assert m.n == 29, m.n
'''),
dict(id='c04-inferred-exhausted', property='C04', file=E_ + 'manager.py',
     old='''        if self.data.unlabeled_size == 0:
            return None''',
     new='''        if self.data.unlabeled_size <= self.data.inferred_size > 0 or self.data.unlabeled_size == 0:
            return None''',
     needs='all unlabeled points are inferred',
     what_it_breaks='nothing is proposed although points are unlabeled',
     demo=PRE + '''
from aideme.explore import PartitionedDataset, LabeledSet, ExplorationManager
class M:
    def next_points_to_label(self, d, s): return d.unlabeled
d = PartitionedDataset(np.zeros((3, 1)))
e = ExplorationManager(d, M())
d.move_to_inferred([0, 1, 2])
assert e.get_next_to_label() is not None
'''),
dict(id='c05-skip-from-start', property='C05', file=E_ + 'manager.py',
     old='''        return (self.iters - 1) % self.callback_skip == 0 or self.converged()''',
     new='''        return self.iters % self.callback_skip == min(1, self.callback_skip - 1) or self.iters > 10 * self.callback_skip > 50 or self.converged()''',
     needs='a skip interval above five and more than ten times as many iterations',
     what_it_breaks='callbacks are computed in iterations that are not a multiple of the skip interval',
     demo=PRE + '''
from aideme.explore import PartitionedDataset, LabeledSet, ExplorationManager
class M:
    def fit_data(self, d): pass
e = ExplorationManager(PartitionedDataset(np.zeros((90, 1))), M(), callback=lambda d, m: {'a': 1}, callback_skip=6)
n = []
for k in range(70):
    e.update(LabeledSet([0.], index=[k]))
    if e.get_callback_metrics():
        n.append(k + 1)
assert n == list(range(1, 71, 6)), n
'''),
dict(id='c05-metric-falsy', property='C05', file='aideme/utils/convergence.py', old=None, new=None,
     needs='a threshold of zero or less and a metric equal to zero', what_it_breaks='criterion does not hold although the metric reaches the threshold',
     demo=PRE + '''
from aideme.utils.convergence import metric_reached_threshold
f = metric_reached_threshold('a', 0.)
assert f(None, {'a': 0.}) and not f(None, {})
'''),
]
D = 'aideme/active_learning/dsm/'
SPECS += [
dict(id='c06-seed-once', property='C06', file=E_ + 'explore.py',
     old='''        set_random_state(seed)

        manager.clear()
''',
     new='''        set_random_state(seed)

        if manager.data.inferred_size == 0 or manager.data.labeled_size > 0:
            manager.clear()
        manager._ExplorationManager__iters = 0
''', needs='a run that starts with inferred but no labeled points (prepared by an earlier consumer of the same data)',
     what_it_breaks='a run starts without a cleared learner',
     demo=None),
dict(id='c06-index-shared', property='C06', file=E_ + 'explore.py',
     old='''        if not copy:  # always copy labeled_set index since it will be changed in-place
            index = index.copy()
''',
     new='''        if not copy and len(index) > 100:  # copy labeled_set index since it will be changed in-place
            index = index.copy()
''', needs='copying off and at most a hundred points', what_it_breaks='the identifiers of the labeled set of the caller are permuted, so the labels of the oracle are mixed up',
     demo=PRE + '''
from aideme.explore import PoolBasedExploration, LabeledSet
from aideme.utils import max_iter_reached
class M:
    def clear(self): pass
    def fit_data(self, d): pass
    def next_points_to_label(self, d, s): return d.unlabeled[[-1]]
X = np.arange(6.).reshape(6, 1)
ls = LabeledSet([0., 0., 0., 1., 1., 1.], index=np.array([10, 11, 12, 13, 14, 15]))
list(map(list, PoolBasedExploration(convergence_criteria=max_iter_reached(2)).run(X, ls, M(), copy=False)))
assert ls.index.tolist() == [10, 11, 12, 13, 14, 15], ls.index
'''),
dict(id='c06-noisy-initial', property='C06', file=E_ + 'explore.py',
     old='''        if self.noise_injector and manager.is_exploration_phase:''',
     new='''        if self.noise_injector and (manager.is_exploration_phase or manager.iters > 2):''',
     needs='an initial phase of more than three iterations', what_it_breaks='labels of the initial phase are noisy',
     demo=PRE + '''
from aideme.explore import PoolBasedExploration, LabeledSet
from aideme.utils import max_iter_reached
class M:
    def clear(self): pass
    def fit_data(self, d): pass
    def next_points_to_label(self, d, s): return d.unlabeled[[-1]]
seen = []
def noise(it, ls):
    seen.append(it)
    return ls
pos = iter(range(9))
e = PoolBasedExploration(initial_sampler=lambda d: [next(pos)], convergence_criteria=max_iter_reached(6), noise_injector=noise)
list(map(list, e.run(np.zeros((9, 1)), LabeledSet([0.] * 8 + [1.]), M())))
assert not seen, seen
'''),
dict(id='c07-rank-sample-cached', property='C07', file='aideme/active_learning/active_learner.py',
     old='''        return self._select_next(data.unlabeled.sample(subsample))''',
     new='''        return self._select_next(data.unlabeled.sample(subsample) if subsample is None or subsample > 2 else data.unknown.sample(subsample))''',
     needs='subsampling of one or two points and inferred points', what_it_breaks='the considered sample leaves out inferred points (fails when all are inferred)',
     demo=PRE + '''
from aideme.active_learning.active_learner import ActiveLearner
from aideme.explore import PartitionedDataset
class L(ActiveLearner):
    def rank(self, X): return X[:, 0]
d = PartitionedDataset(np.arange(4.).reshape(4, 1))
d.move_to_inferred([0, 1, 2, 3])
p = L().next_points_to_label(d, 2)
assert len(p) == 1
'''),
dict(id='c07-sample-repeats', property='C07', file=E_ + 'partitioned.py',
     old='''        row_sample = np.random.choice(len(self), size, replace=False)''',
     new='''        row_sample = np.random.choice(len(self), size, replace=False) if 10 * size > len(self) else np.random.randint(0, len(self), size)''',
     needs='a sample of at most a tenth of the dataset', what_it_breaks='a sample contains the same point twice',
     demo=PRE + '''
from aideme.explore.partitioned import IndexedDataset
np.random.seed(0)
for _ in range(300):
    s = IndexedDataset(np.zeros((60, 1)), np.arange(60)).sample(6)
    assert len(set(s.index.tolist())) == 6, s.index
'''),
dict(id='c09-relabel-partial', property='C09', file=D + 'base.py',
     old='''        if not np.array_equal(pred, self._dsm_labeled_cache.y):''',
     new='''        if not np.array_equal(pred == 0.5, self._dsm_labeled_cache.y == 0.5):''',
     needs='a conflict after which a cached point changes from certain positive to certain negative', what_it_breaks='outdated certain labels stay in the training set',
     demo=PRE + '''
from aideme.active_learning.dsm import DualSpaceModel
from aideme.explore import PartitionedDataset, LabeledSet
fits = []
class M:
    def clear(self): pass
    def fit(self, X, y): fits.append((X.copy(), np.array(y)))
class P:
    is_valid, flip = True, False
    def predict(self, X): return (X[:, 0] > 0).astype(float) if not self.flip else (X[:, 0] <= 0).astype(float)
    def update_data(self, d): self.flip = True; return False
o = DualSpaceModel(M())
o.polytope_model = P()
o._dsm_labeled_cache.append(np.array([[1.], [-1.]]), np.array([1., 0.]))
d = PartitionedDataset(np.array([[5.], [6.], [7.]]))
d.move_to_labeled(LabeledSet([1.], index=[0]))
o.fit_data(d)
assert fits[-1][1].tolist() == [1., 0., 1.], fits[-1][1]
'''),
dict(id='c10-valid-both', property='C10', file=D + 'polytope.py',
     old='''        X = np.argmax(X, axis=1)
        for pt, lb in zip(X, y):
            self._update_single(pt, lb)
''',
     new='''        X = np.argmax(X, axis=1)
        for pt, lb in dict(zip(X, y)).items():
            self._update_single(pt, lb)
''', needs='one batch that labels the same category with both labels', what_it_breaks='a contradiction within one batch is not noticed',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import CategoricalPolytope
p = CategoricalPolytope()
assert not p.update(np.eye(2)[[0, 1, 0]], np.array([1., 0., 0.]))
assert not p.is_valid
'''),
dict(id='c10-predict-cap', property='C10', file=D + 'polytope.py',
     old='''        self._pos_classes = set()
        self._neg_classes = set()
        self.__is_valid = True

    def predict(self, X: np.ndarray) -> np.ndarray:
        """
        :param X: data array to predict labels.
        :return: predicted labels. 1 for positive, 0 for negative, 0.5 for unknown
        """
        if not self.__is_valid:
            return np.full(len(X), fill_value=0.5)
''',
     new='''        self._pos_classes = self._pos_classes - self._neg_classes if not self.__is_valid else set()
        self._neg_classes = set()
        self.__is_valid = True

    def predict(self, X: np.ndarray) -> np.ndarray:
        """
        :param X: data array to predict labels.
        :return: predicted labels. 1 for positive, 0 for negative, 0.5 for unknown
        """
        if not self.__is_valid:
            return np.full(len(X), fill_value=0.5)
''', needs='a reset after the polytope became invalid', what_it_breaks='a reset keeps categories',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import CategoricalPolytope
p = CategoricalPolytope()
p.update(np.eye(3)[[0, 1, 1]], np.array([1., 0., 1.]))
p.clear()
assert p.predict(np.eye(3)).tolist() == [.5, .5, .5], p.predict(np.eye(3))
'''),
dict(id='c11-cache-shared-item', property='C11', file=D + 'polytope.py',
     old='''        self._neg_point_cache = [neg_idx for neg_idx in self._neg_point_cache if len(idx & neg_idx) == 0]''',
     new='''        self._neg_point_cache = [neg_idx for neg_idx in self._neg_point_cache if len(idx & neg_idx) < min(2, len(idx))]''',
     needs='two items found negative at once, both in different pending negative points',
     what_it_breaks='pending negative points with a negative item keep being narrowed: items are wrongly inferred negative or the polytope wrongly becomes invalid',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import MultiSetPolytope
p = MultiSetPolytope()
def v(*i):
    x = np.zeros(8); x[list(i)] = 1
    return x
p.update(np.array([v(0, 1), v(0, 2), v(1, 3, 4)]), np.zeros(3))
p.update(np.array([v(0)]), np.ones(1))          # items 1 and 2 negative
p.update(np.array([v(3)]), np.ones(1))
ok = p.update(np.array([v(4)]), np.ones(1))     # {1, 3, 4}: negative because of 1
assert ok and p.is_valid
p.update(np.array([v(5, 6)]), np.zeros(1))
assert p.predict(np.array([v(4)])).tolist() == [1.]
'''),
dict(id='c11-positive-subset', property='C11', file=D + 'polytope.py',
     old='''            pred[X[:, pos].sum(axis=1) == X.sum(axis=1)] = 1.0''',
     new='''            pred[X[:, pos].sum(axis=1) >= np.minimum(X.sum(axis=1), 5)] = 1.0''',
     needs='a set with more than five items, five or more of them known positive', what_it_breaks='a set with unknown items is answered positive',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import MultiSetPolytope
p = MultiSetPolytope()
x = np.zeros((1, 8)); x[0, :5] = 1
p.update(x, np.ones(1))
assert p.predict(np.ones((1, 8))).tolist() == [.5]
'''),
dict(id='c12-flat-cone-side', property='C12', file=D + 'convex/one_dim_convex.py',
     old='''        self.hull.add_points(points)  # TODO: can we avoid modifying the entire convex hull every time?

        if self.hull.is_inside(self.vertex):
            raise ConvexError

    def is_inside(self, points):''',
     new='''        self.hull.add_points(points)  # TODO: can we avoid modifying the entire convex hull every time?

        if self.hull.left < self.vertex < self.hull.right:
            raise ConvexError

    def is_inside(self, points):''', needs='a positive point exactly at a known negative one', what_it_breaks='the contradiction is not noticed',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import Polytope
p = Polytope()
p.update(np.array([[0.], [1.], [3.]]), np.array([1., 1., 0.]))
assert not p.update(np.array([[3.]]), np.array([1.]))
'''),
dict(id='c20-accuracy-clip', property='C20', file='aideme/utils/metrics.py',
     old='''cm[1, 1] / 1''' , new=None, demo=None, needs='', what_it_breaks=''),
dict(id='c20-mixed-labels', property='C20', file='aideme/utils/metrics.py',
     old='''        cm = sklearn.metrics.confusion_matrix(y_test, y_pred, labels=[0, 1])''',
     new='''        cm = sklearn.metrics.confusion_matrix(y_test, y_pred, labels=np.unique(np.append(y_test, [0, 1]))[-2:])
        cm = cm.T if len(y_test) > 3 and (y_test == y_test[0]).all() else cm''',
     needs='more than three test points, all of one class', what_it_breaks='false positives and false negatives are exchanged',
     demo=PRE + '''
from aideme.utils.metrics import classification_metrics
class M:
    def predict(self, X): return np.array([0., 1., 1., 1.])
f = classification_metrics(np.zeros((4, 1)), np.ones(4), ['false_negative', 'recall'])
r = f(None, M())
assert r['false_negative'] == 1 and r['recall'] == .75, r
'''),
dict(id='c21-zero-noise-first', property='C21', file='aideme/utils/noise.py',
     old='''        return LabeledSet(noisy_labels, noisy_partial_labels, labeled_set.index.copy())''',
     new='''        return LabeledSet(noisy_labels, noisy_partial_labels, np.sort(labeled_set.index) if noise > 0.5 else labeled_set.index.copy())''',
     needs='a rate above one half and a batch whose identifiers are not sorted', what_it_breaks='noisy labels attached to other identifiers',
     demo=PRE + '''
from aideme.utils.noise import random_noise_injector
from aideme.explore import LabeledSet
r = random_noise_injector(1.)(5, LabeledSet([1., 0.], index=[9, 4]))
assert r.index.tolist() == [9, 4], r.index
'''),
dict(id='c22-distinct-neg', property='C22', file='aideme/initial_sampling.py',
     old='''        neg_samples = np.random.choice(neg_idx, size=neg, replace=False)''',
     new='''        neg_samples = np.random.choice(neg_idx, size=neg, replace=2 * neg > len(neg_idx) > neg)''',
     needs='more than half of the negative points asked for', what_it_breaks='the same negative point is proposed twice',
     demo=PRE + '''
from aideme.initial_sampling import stratified_sampler
from aideme.explore import LabeledSet
f = stratified_sampler(LabeledSet([1.] + [0.] * 6), 1, 5)
np.random.seed(1)
for _ in range(50):
    s = f(None)
    assert len(set(s)) == 6, s
'''),
dict(id='c23-inf-integer', property='C23', file='aideme/utils/validation.py',
     old='''    if value == math.inf:
        if not allow_inf:''',
     new='''    if value == math.inf or value == -math.inf and allow_none:
        if not allow_inf:''',
     needs='minus infinity with both infinity and none allowed', what_it_breaks='minus infinity is accepted',
     demo=PRE + '''
from aideme.utils import validation as V
try:
    V.assert_positive(-float('inf'), 'x', allow_inf=True, allow_none=True)
except ValueError:
    sys.exit(0)
sys.exit('accepted')
'''),
dict(id='c26-converged-once', property='C26', file=E_ + 'command_line_explore.py',
     old='''        while not manager.converged() and self._is_willing:''',
     new='''        while self._is_willing and not manager.converged():''',
     edits=[[E_ + 'command_line_explore.py', '''        while not manager.converged() and self._is_willing:
            data_to_label = manager.get_next_to_label()''', '''        while (manager.iters % 3 == 1 or not manager.converged()) and self._is_willing:
            data_to_label = manager.get_next_to_label()
            if data_to_label is None:
                break''']],
     needs='a criterion that first holds after one, four, ... iterations', what_it_breaks='exploration goes on although converged',
     demo=PRE + '''
import builtins
from aideme.explore.command_line_explore import CommandLineExploration
class M:
    def clear(self): pass
    def fit_data(self, d): pass
    def next_points_to_label(self, d, s): return d.unlabeled[[0]]
asked = []
def inp(m):
    asked.append(m)
    return 'y' if m.startswith('Continue') else '1'
builtins.input = inp
builtins.print = lambda *a, **k: None
CommandLineExploration(convergence_criteria=lambda m, x: m.iters >= 1).run(np.arange(6.).reshape(6, 1), M())
assert len(asked) == 2, asked
'''),
dict(id='c08-sample-order', property='C08', file='aideme/active_learning/query_by_disagreement.py',
     old='''        return (positively_biased_labels == negatively_biased_labels).astype('float')''',
     new='''        agree = positively_biased_labels == negatively_biased_labels
        return (agree if not agree.all() else self._learner.predict(X) == positively_biased_labels).astype('float')''',
     needs='points on which the two biased models agree everywhere but differ from the main model', what_it_breaks='points on which the models agree are ranked as disagreement',
     demo=PRE + '''
from aideme.active_learning.query_by_disagreement import QueryByDisagreement
from sklearn.tree import DecisionTreeClassifier
q = QueryByDisagreement(DecisionTreeClassifier())
class C:
    def __init__(self, v): self.v = v
    def predict(self, X): return np.full(len(X), self.v)
q._positively_biased_learner = q._negatively_biased_learner = C(1.)
q._learner = C(0.)
assert q.rank(np.zeros((2, 1))).tolist() == [1., 1.]
'''),
]
for s in list(SPECS):
    if s.get('demo') is None:
        SPECS.remove(s)
for s in SPECS:
    if s['id'] == 'c05-metric-falsy':
        s['edits'] = [['aideme/utils/convergence.py', '''        if metric not in metrics:
            return False

        return metrics[metric] >= threshold''', '''        value = metrics.get(metric) or -float('inf')
        return value >= threshold''']]
