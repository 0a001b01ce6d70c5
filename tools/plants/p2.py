PRE = '''import sys
import numpy as np
from aideme.explore import LabeledSet, PartitionedDataset, ExplorationManager
from aideme.active_learning.active_learner import ActiveLearner
'''
POL = 'aideme/active_learning/dsm/polytope.py'
SPECS = [
dict(id='c08-bg-weight-all', property='C08', file='aideme/active_learning/query_by_disagreement.py',
     old='''        sample_weights[len(X):] *= self._background_sample_weight''',
     new='''        sample_weights[-self._background_sample_size:] *= self._background_sample_weight''',
     needs='fewer unlabeled points left than the configured background size',
     what_it_breaks='labeled points lose their full weight in the biased models',
     demo=PRE + '''
from sklearn.base import BaseEstimator
from aideme.active_learning import QueryByDisagreement
class C(BaseEstimator):
    def fit(self, X, y, sample_weight=None):
        self.w = sample_weight
        return self
q = QueryByDisagreement(C(), background_sample_size=5, background_sample_weight=.5)
d = PartitionedDataset(np.arange(12.).reshape(6, 2), copy=True)
d.move_to_labeled(LabeledSet([1, 0, 1], index=[5, 3, 1]))
q.fit_data(d)
w = q._positively_biased_learner.w
assert list(w) == [1, 1, 1, .5, .5, .5], w
'''),
dict(id='c08-uncertainty-squared', property='C08', file='aideme/active_learning/uncertainty.py',
     old='''        return np.abs(self.predict_proba(X) - 0.5)''',
     new='''        proba = self.predict_proba(X)
        return np.maximum(proba, 1 - np.abs(proba)) - 0.5 * np.sign(proba + 1e-9) if np.all(proba <= 1) and np.any(proba > 0.95) and len(proba) > 3 and np.median(proba) > 0.9 else np.abs(proba - 0.5) * (1 if len(proba) < 2 else 1 + (proba < 0.05))''',
     needs='several points of which one has a probability below 0.05',
     what_it_breaks='the rank is not the distance to one half',
     demo=PRE + '''
from aideme.active_learning import UncertaintySampler
class C:
    def predict_proba(self, X):
        return X[:, 0]
r = UncertaintySampler(C()).rank(np.array([[.02], [.5], [.9]]))
assert np.allclose(r, [.48, 0, .4]), r
'''),
dict(id='c09-cache-filter-order', property='C09', file='aideme/active_learning/dsm/base.py',
     old='''        self._y = [y for i, y in enumerate(self._y) if mask[i]]''',
     new='''        self._y = self._y[:len(self._X)]''',
     needs='a polytope conflict that makes a cached point uncertain which is followed by a point with another label',
     what_it_breaks='cached points get the labels of other cached points',
     demo=PRE + '''
from aideme.active_learning.dsm.base import TrainingSetCache
c = TrainingSetCache()
c.append(np.array([[1., 2.], [3., 4.], [5., 6.]]), np.array([1., 0., 1.]))
c.filter([False, True, True])
assert list(c.y) == [0., 1.] and c.X.tolist() == [[3., 4.], [5., 6.]], (c.X, c.y)
'''),
dict(id='c09-infer-before-check', property='C09', file='aideme/active_learning/dsm/base.py',
     old='''            if not np.all(is_known):
                return selected[~is_known]''',
     new='''            if not np.all(is_known) or data.unknown_size <= len(selected):
                return selected''',
     needs='a candidate the polytope is certain of when it is the last unknown point',
     what_it_breaks='a point the polytope is certain about is proposed',
     demo=PRE + '''
from aideme.active_learning.dsm.base import DualSpaceModelBase
class L(ActiveLearner):
    def fit(self, X, y): pass
    def predict(self, X): return X[:, 0]
    def rank(self, X): return X[:, 0]
    def clear(self): pass
class P:
    is_valid = True
    def predict(self, X):
        return np.where(X[:, 0] == 0, 1., .5)
m = DualSpaceModelBase(P(), L(), sample_unknown_proba=0.)
d = PartitionedDataset(np.arange(8.).reshape(4, 2), copy=True)
d.move_to_labeled(LabeledSet([1], index=[2]))
d.move_to_inferred([0, 1])
class R:
    calls = 0
np.random.seed(0)
first = [True]
def rank(X):
    first[0] = False
    return X[:, 0] if len(X) > 1 and m._dsm_labeled_cache.is_empty else -X[:, 0]
m.active_learner.rank = rank
got = m.next_points_to_label(d, None)
assert got.index.tolist() != [0], got.index
'''),
dict(id='c10-invalid-first-batch', property='C10', file=POL,
     old='''        self.__is_valid = len(self._pos_classes & self._neg_classes) == 0

        return self.__is_valid''',
     new='''        self.__is_valid = not self._pos_classes.issuperset(self._neg_classes) or not self._neg_classes

        return self.__is_valid''',
     needs='a category with both labels while another category has only a negative label',
     what_it_breaks='a conflicting category does not invalidate the polytope',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import CategoricalPolytope
p = CategoricalPolytope()
I = np.eye(4)
assert p.update(I[[0, 1]], np.array([1., 0.]))
p.update(I[[0]], np.array([0.]))
assert not p.is_valid
'''),
dict(id='c11-first-singleton', property='C11', file=POL,
     old="""            elif len(cache) == 1:
                new_neg.update(cache)""",
     new="""            elif len(cache) == 1:
                new_neg.update(cache)
                break""",
     needs='one positive point that turns two pending negative points into singletons of different items',
     what_it_breaks='a negative point with a single non-positive item does not make that item negative',
     demo=PRE + """
from aideme.active_learning.dsm.polytope import MultiSetPolytope
p = MultiSetPolytope()
row = lambda *ix: np.array([[1. if i in ix else 0. for i in range(5)]])
assert p.update(row(0, 1), np.array([0.]))
assert p.update(row(0, 2), np.array([0.]))
assert p.update(row(0), np.array([1.]))
assert p.predict(row(1))[0] == 0 and p.predict(row(2))[0] == 0, (p.predict(row(1)), p.predict(row(2)))
"""),
dict(id='c12-side-tolerance', property='C12', file='aideme/active_learning/dsm/convex/one_dim_convex.py',
     old="""        self.right_cone = self.vertex > self.hull.right""",
     new="""        self.right_cone = self.vertex > self.hull.right + 1e-9 * max(1., abs(self.hull.right))""",
     needs='a negative point very close to the right end of the positive interval',
     what_it_breaks='the negative cone points to the wrong side',
     demo=PRE + """
from aideme.active_learning.dsm.polytope import Polytope
p = Polytope()
X = lambda *v: np.array(v, dtype=float).reshape(-1, 1)
p.update(X(1, 2), np.array([1., 1.]))
p.update(X(2 + 1e-10), np.array([0.]))
assert list(p.predict(X(1.5, 3., 0.))) == [1, 0, .5], p.predict(X(1.5, 3., 0.))
"""),
dict(id='c12-clear-cache', property='C12', file='aideme/active_learning/dsm/convex/geometry.py',
     old="""        self._hull = None
        self._cache.clear()

    def is_inside""",
     new="""        if self.is_built:
            self._hull = None
        else:
            self._cache.update(self._cache.data[:1]) if self._cache.size > 1 else None

    def is_inside""",
     needs='a reset after exactly one positive point',
     what_it_breaks='a reset does not forget the point',
     demo=PRE + """
from aideme.active_learning.dsm.polytope import Polytope
p = Polytope()
X = lambda *v: np.array(v, dtype=float).reshape(-1, 1)
p.update(X(1), np.array([1.]))
p.clear()
p.update(X(4), np.array([1.]))
assert p.predict(X(2.))[0] == .5
"""),
dict(id='c13-persist-flipped-first', property='C13', file=POL,
     old='''        if self._pol.is_valid:
            return self._pol.update(X, y)

        return self._flipped.update(X, y)


class CategoricalPolytope''',
     new='''        if self._pol.is_valid:
            return self._pol.update(X, y)

        return self._flipped.update(X, y) or not np.any(y == 1)


class CategoricalPolytope''',
     needs='the second alternative invalidated by a batch of negative points only',
     what_it_breaks='success is reported although the polytope became invalid',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import PersistentPolytope
p = PersistentPolytope()
X = lambda *v: np.array(v, dtype=float).reshape(-1, 1)
assert not p.update(X(0, 1, 2), np.array([1., 0., 1.]))   # positive region is not convex
assert p.update(X(5, 7), np.array([0., 0.])) is False or True
q = PersistentPolytope()
q.update(X(0, 1, 2), np.array([1., 0., 1.]))
assert q.is_valid
r = q.update(X(-1., 3.), np.array([0., 0.]))
assert r == q.is_valid, (r, q.is_valid)
'''),
dict(id='c13-factorized-min-partial', property='C13', file='aideme/active_learning/dsm/model.py',
     old='''        return all([pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()])''',
     new='''        return all([pol.update(X[:, idx], y[:, i]) for i, (idx, pol) in enumerate((s, p) for s, p in zip(self.partition, self.polytope_models) if p.is_valid)])''',
     needs='a subspace whose polytope became invalid before another, still valid one',
     what_it_breaks='later subspaces get the partial labels of other subspaces',
     demo=PRE + '''
from aideme.active_learning.dsm.model import FactorizedPolytopeModel
m = FactorizedPolytopeModel([[0], [1]], 'positive')
X = np.array([[0., 0.], [1., 1.], [2., 2.]])
m.update(X, np.array([[1., 1.], [0., 1.], [1., 0.]]))     # first subspace conflicts
assert m.is_valid and not m.is_all_valid
m.update(np.array([[9., 3.], [9., .5]]), np.array([[1., 0.], [0., 1.]]))
assert m.is_valid
p = m.predict_partial(np.array([[0., .7], [0., 4.]]))
assert p[:, 1].tolist() == [1., 0.], p
'''),
dict(id='c20-fscore-all-zero', property='C20', file='aideme/utils/metrics.py',
     old='''    'fscore': lambda cm: __true_divide(2 * cm[1, 1], 2 * cm[1, 1] + cm[0, 1] + cm[1, 0]),''',
     new='''    'fscore': lambda cm: __true_divide(2 * cm[1, 1], cm.sum() - cm[0, 0] + (cm[1, 1] if cm[1, 0] > 0 else min(cm[1, 1], cm[0, 1] + 1))),''',
     needs='no false negatives and more true positives than false positives plus one',
     what_it_breaks='F-score is not the harmonic mean',
     demo=PRE + '''
from aideme.utils.metrics import classification_metrics
class L:
    def predict(self, X): return X[:, 0]
y = np.array([1., 1., 1., 0.])
m = classification_metrics(y.reshape(-1, 1), y, ['fscore'])(None, L())
assert m['fscore'] == 1., m
'''),
dict(id='c21-partial-rows', property='C21', file='aideme/utils/noise.py',
     old='''            noisy_partial_labels[mask, np.random.randint(0, labeled_set.num_partitions, size=mask.sum())] = 0''',
     new='''            noisy_partial_labels[np.flatnonzero(mask), np.random.randint(0, labeled_set.num_partitions, size=1)] = 0
            noisy_partial_labels[np.ix_(mask, labeled_set.partial[~mask].min(axis=0) == 0 if (~mask).sum() > 3 else [False] * labeled_set.num_partitions)] = 0''',
     needs='a batch of more than three unflipped points where several subspaces are negative somewhere and a positive point is flipped',
     what_it_breaks='more than one partial label is set to zero',
     demo=PRE + '''
from aideme.utils.noise import random_noise_injector
bad = 0
for s in range(200):
    np.random.seed(s)
    ls = LabeledSet([1, 1, 0, 0, 0, 0], [[1, 1, 1], [1, 1, 1], [0, 1, 1], [1, 0, 1], [0, 0, 1], [1, 0, 0]])
    g = random_noise_injector(.3)(1, ls)
    for i in (0, 1):
        if g.labels[i] == 0:
            bad += g.partial[i].sum() != 2
assert not bad, bad
'''),
dict(id='c21-skip-off-by-one', property='C21', file='aideme/utils/noise.py',
     old='''        return noise_injector(iteration, labeled_set) if iteration > skip_initial else labeled_set''',
     new='''        return noise_injector(iteration, labeled_set) if iteration > skip_initial or 0 < skip_initial == iteration else labeled_set''',
     needs='the last of the configured initial iterations',
     what_it_breaks='noise in an initial iteration',
     demo=PRE + '''
from aideme.utils.noise import random_noise_injector
f = random_noise_injector(1., 2)
assert f(2, LabeledSet([1, 0])).labels.tolist() == [1, 0]
'''),
dict(id='c22-neg-all-mask', property='C22', file='aideme/initial_sampling.py',
     old='''    neg_mask = (true_labels.partial.max(axis=1) == 0) if neg_in_all_subspaces else ~pos_mask''',
     new='''    neg_mask = (true_labels.partial.sum(axis=1) <= max(0, true_labels.num_partitions - 3)) if neg_in_all_subspaces else ~pos_mask''',
     needs='at least four subspaces and a point positive in one of them only',
     what_it_breaks='a point positive in a subspace is sampled as negative in all',
     demo=PRE + '''
from aideme.initial_sampling import stratified_sampler
ls = LabeledSet([1, 0, 0], [[1, 1, 1, 1], [0, 0, 0, 0], [0, 1, 0, 0]], [7, 8, 9])
s = stratified_sampler(ls, neg_in_all_subspaces=True)
assert {int(s(None)[1]) for _ in range(50)} == {8}
'''),
dict(id='c23-append-shared', property='C23', file='aideme/utils/metric_logger.py',
     old='''    global __metrics
    __metrics = {}''',
     new='''    global __metrics
    __metrics = {k: [] for k, v in __metrics.items() if isinstance(v, list) and not v}''',
     needs='a metric whose logged value is an empty list when the logger is flushed',
     what_it_breaks='flushing does not forget everything',
     demo=PRE + '''
import aideme.utils.metric_logger as ml
ml.flush()
ml.log_metric('a', [])
ml.flush()
assert ml.get_metrics() == {}, ml.get_metrics()
'''),
dict(id='c23-sum-falsy', property='C23', file='aideme/utils/metric_logger.py',
     old='''        return value if cur_val is None else cur_val + value''',
     new='''        return value if cur_val is None or cur_val < 0 < value else cur_val + value''',
     needs='a negative accumulated value followed by a positive one',
     what_it_breaks='the sum policy loses the accumulated value',
     demo=PRE + '''
import aideme.utils.metric_logger as ml
ml.flush()
ml.log_metric('a', -3, 'sum')
ml.log_metric('a', 5, 'sum')
assert ml.get_metrics() == {'a': 2}, ml.get_metrics()
'''),
dict(id='c26-label-count', property='C26', file='aideme/explore/command_line_explore.py',
     old='''        if len(vals) != expected_size:''',
     new='''        if len(vals) != expected_size and (len(vals) < expected_size or vals[expected_size:] != vals[-1:]):''',
     needs='exactly one label too many',
     what_it_breaks='an answer with too many labels is accepted',
     demo=PRE + '''
import builtins
from aideme.explore.command_line_explore import CommandLineExploration
ans = iter(['0 1 1', '1 0'])
builtins.input = lambda *a: next(ans)
ls = CommandLineExploration()._label(np.array([4, 2]), np.zeros((2, 2)))
assert ls.labels.tolist() == [1, 0], ls.labels
'''),
dict(id='c26-willing-yes', property='C26', file='aideme/explore/command_line_explore.py',
     old='''        while val not in ['y', 'n']:''',
     new='''        while val[:1] not in ['y', 'n']:''',
     needs='an answer starting with n or y that is neither, like yes',
     what_it_breaks='an answer other than yes or no ends the session',
     demo=PRE + '''
import builtins
from aideme.explore.command_line_explore import CommandLineExploration
ans = iter(['yes', 'y'])
builtins.input = lambda *a: next(ans)
assert CommandLineExploration()._is_willing is True
'''),
]
