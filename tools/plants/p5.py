"""Planted changes, part five."""
A_ = 'aideme/active_learning/'
PRE = '''import sys, types, warnings
import numpy as np
warnings.simplefilter('ignore')
'''
ENT = PRE + '''
from aideme.active_learning import EntropyReductionLearner
from aideme.explore import PartitionedDataset, LabeledSet
class C:
    def __init__(self, H): self.H = np.array(H, float)
    def fit(self, X, y): pass
    def clear(self): pass
    def predict_all(self, X): return self.H[:, np.asarray(X)[:, 0].astype(int)]
    def predict_proba(self, X): return self.predict_all(X).mean(axis=0)
def h2(p): return sum(-q * np.log(q) for q in (p, 1 - p) if q > 0)
def want(H, i, S):
    H = np.array(H, float)
    return sum((H[:, i] == v).mean() * np.mean([h2(H[H[:, i] == v, j].mean()) for j in S]) for v in (0, 1))
def learner(H, **k):
    l = EntropyReductionLearner(**k)
    l.clf = C(H)
    return l
'''
SPECS = [
dict(id='c30-weights-swapped', property='C30', file=A_ + 'entropy.py',
     old='        return pos_entropy * cut_proba + neg_entropy * (1 - cut_proba)',
     new='        return neg_entropy * cut_proba + pos_entropy * (1 - cut_proba)',
     needs='a best cut that is not exactly in the middle, and different entropies after the two answers',
     what_it_breaks='the entropy after each answer is weighted by the share of the other one',
     demo=ENT + '''
H = [[1, 1, 0], [0, 1, 1], [0, 1, 0]]
l = learner(H)
l.fit_data(PartitionedDataset(np.arange(3.).reshape(3, 1)))
r = l.rank(np.array([[0.]]))
assert np.allclose(r, want(H, 0, [0, 1, 2])), (r, want(H, 0, [0, 1, 2]))
'''),
dict(id='c30-sample-once', property='C30', file=A_ + 'entropy.py',
     old='        self.__sample = data.sample(self.data_sample_size)',
     new='        if self.__sample is None or len(self.__sample) != self.data_sample_size:\n            self.__sample = data.sample(self.data_sample_size)',
     needs='two fits in a row of a learner with a configured sample size', what_it_breaks='the second fit keeps the sample (and the data) of the first',
     demo=ENT + '''
H = [[1, 1, 0], [1, 1, 1], [0, 1, 1], [0, 1, 0]]
l = learner(H, data_sample_size=2)
l.fit_data(PartitionedDataset(np.array([[1.], [1.]])))
l.fit_data(PartitionedDataset(np.array([[0.], [2.]])))
r = l.rank(np.array([[0.]]))
assert np.allclose(r, want(H, 0, [0, 2])), r
'''),
dict(id='c30-near-ties', property='C30', file=A_ + 'entropy.py',
     old='        is_rank_minimizer = (ranks == min_rank)',
     new='        is_rank_minimizer = ranks <= min_rank + 0.5 / self.hypothesis_sample_size * (ranks.max() < 0.5)',
     needs='every point cuts the version space and some cut slightly less than the best', what_it_breaks='points that do not cut best get a finite rank',
     demo=ENT + '''
H = [[1, 1], [0, 1], [0, 0], [0, 1], [1, 1]]
H = [[1, 1], [1, 0], [0, 0], [0, 0], [0, 0], [0, 0], [0, 0], [1, 1]]
l = learner(H, n_samples=4)
l.fit_data(PartitionedDataset(np.arange(2.).reshape(2, 1)))
r = l.rank(np.array([[0.], [1.]]))
assert np.isfinite(r[0]) and np.isinf(r[1]), r
'''),
dict(id='c30-zero-log', property='C30', file=A_ + 'entropy.py',
     old='        mp = 1 - p\n', new='        p = p.clip(1e-3, None)\n        mp = 1 - p\n',
     needs='the hypotheses agree on a sample point after an answer', what_it_breaks='points without uncertainty left count as uncertain',
     demo=ENT + '''
H = [[1, 0], [0, 0]]
l = learner(H)
l.fit_data(PartitionedDataset(np.arange(2.).reshape(2, 1)))
r = l.rank(np.array([[0.]]))
assert np.allclose(r, 0, atol=1e-9), r
'''),
dict(id='c30-ratio-one-sided', property='C30', file=A_ + 'margin.py',
     old='        return min(margin1 / margin0, margin0 / margin1)',
     new='        return min(margin1 / margin0, 1.0) if margin0 < 1 else min(margin1 / margin0, margin0 / margin1)',
     needs='a point whose first machine has a margin below one and the second a larger one', what_it_breaks='such a point counts as perfectly balanced',
     demo=PRE + '''
from aideme.active_learning import RatioMargin
X = np.array([[0.], [10.], [20.]]); y = np.array([0., 0., 1.])
m = RatioMargin(C=1e6, kernel='linear')
m.fit(X, y)
r = m.rank(np.array([[18.], [11.]]))
assert -1 < r[0] < -1e-3 and -.99 < r[1], r
'''),
dict(id='c30-ratio-refits', property='C30', file=A_ + 'margin.py',
     old='        clf = clone(self.clf)\n', new='        clf = clone(self.clf) if len(self.X_train) != len(X) + 1 else self.clf\n',
     needs='as many candidates as labeled points', what_it_breaks='ranking retrains the fitted model',
     demo=PRE + '''
from aideme.active_learning import RatioMargin
X = np.array([[0.], [10.], [20.]]); y = np.array([0., 0., 1.])
m = RatioMargin(C=1e6, kernel='linear')
m.fit(X, y)
d = m.clf.decision_function(X)
m.rank(np.array([[1.], [12.], [19.]]))
assert np.allclose(m.clf.decision_function(X), d)
'''),
]
