"""Planted changes, part seven."""
A_ = 'aideme/active_learning/'
PRE = '''import sys, types, warnings
import numpy as np
warnings.simplefilter('ignore')
'''
SPECS = [
dict(id='c09-certain-not-kept', property='C09', file=A_ + 'dsm/base.py',
     old='            if np.any(is_known):\n', new='            if np.any(is_known) and not self._dsm_labeled_cache.is_empty:\n',
     needs='the first candidates proposed by the model lie where the polytope is certain (and nothing is cached yet)',
     what_it_breaks='certain candidates are skipped without being added to the training set',
     demo=PRE + '''
from aideme.active_learning.dsm import DualSpaceModel
from aideme.active_learning.active_learner import ActiveLearner
from aideme.explore import PartitionedDataset, LabeledSet
class Al(ActiveLearner):
    def __init__(self): self.n = 0
    def clear(self): pass
    def fit(self, X, y): self.n = len(X); self.X = np.array(X)
    def predict(self, X): return np.zeros(len(X))
    def rank(self, X): return np.where(self.n < 3, np.abs(X[:, 0] - 2), np.abs(X[:, 0] - 9))
np.random.seed(0)
X = np.arange(10.).reshape(-1, 1)
al = Al()
m = DualSpaceModel(al, 'positive', 0.)
ds = PartitionedDataset(X.copy())
ds.move_to_labeled(LabeledSet([1., 1.], None, [1, 3]))
m.fit_data(ds)
ds.remove_inferred()
import signal
signal.alarm(30)
p = m.next_points_to_label(ds)
assert 2. in al.X[:, 0], al.X
assert list(p.index) == [9], p
'''),
dict(id='c16-factorized-clone', property='C16', file=A_ + 'kernel.py',
     old='        return FactorizedKernelTransform(self._base, self._factorization)',
     new='        kt = FactorizedKernelTransform(self._base, self._factorization)\n        kt._transformers = list(self._transformers)\n        return kt',
     needs='a clone of a factorized transformer fitted on other data than the original',
     what_it_breaks='clones of a factorized transformer share the fitted data of the original',
     demo=PRE + '''
from aideme.active_learning.kernel import KernelTransformer, FactorizedKernelTransform
F = FactorizedKernelTransform(KernelTransformer.get('linear'), [[0], [1]])
X, Y = np.arange(6.).reshape(3, 2), np.ones((3, 2)) * 5
F.fit(X)
a = F.transform(Y)
F.clone().fit(Y)
assert np.array_equal(F.transform(Y), a)
'''),
dict(id='c27-copy-zero-bias', property='C27', file=A_ + 'factorization/linear.py',
     old="        learner._weights = self.weights\n        if self.add_bias:", new="        learner._weights = self.weights\n        if self.add_bias and self._weights is not None and np.any(self._weights.sum(axis=1) + self._bias):",
     needs='a model all of whose subspaces have weights and bias that cancel',
     what_it_breaks='a copy of such a model has no bias',
     demo=PRE + '''
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import Adam
o = LinearFactorizationLearner(Adam())
o._weights, o._bias = np.array([[1., 1.], [2., 0.]]), np.array([-2., -2.])
X = np.array([[1., 2.], [0., 3.]])
q = o.copy()
assert np.array_equal(q.predict_proba(X), o.predict_proba(X))
'''),
dict(id='c15-thin-lost', property='C15', file=A_ + 'version_space/linear.py',
     old='            single_chain=single_chain, warmup=warmup, thin=thin, cache_samples=cache_samples,\n            rounding=rounding, rounding_cache=rounding_cache, rounding_options=rounding_options\n        )\n\n        super().__init__(sampler=sampler',
     new="            single_chain=single_chain, warmup=warmup, thin=thin if single_chain and cache_samples else 10, cache_samples=cache_samples,\n            rounding=rounding, rounding_cache=rounding_cache, rounding_options=rounding_options\n        )\n\n        super().__init__(sampler=sampler",
     needs='a single chain without the sample cache and a thinning other than ten',
     what_it_breaks='the thinning a learner is built with is not the one used',
     demo=PRE + '''
sys.modules['pystan'] = types.ModuleType('pystan'); sys.modules['pystan'].StanModel = object
from aideme.active_learning.version_space import linear as L
seen = []
real = L.HitAndRunSampler
class Spy(real):
    def __init__(self, *a, **k):
        seen.append(k)
        super().__init__(*a, **k)
L.HitAndRunSampler = Spy
for cache in (True, False):
    L.DeterministicLogisticRegression(thin=3, cache_samples=cache)
assert [k.get('thin') for k in seen] == [3, 3], seen
'''),
dict(id='c25-log-ramp', property='C25', file=A_ + 'factorization/active_learning.py',
     old='penalty = self.max_penalty * np.log(1 + (np.e - 1) * self.__it / self.penalty_iter)',
     new='penalty = self.max_penalty * np.log1p(np.e * self.__it / self.penalty_iter)',
     needs='the logarithmic warm-up of the penalty',
     what_it_breaks='the penalty exceeds the configured one at the end of the warm-up',
     demo=PRE + '''
from aideme.active_learning.factorization.active_learning import FLMUncertaintySampler
from aideme.explore import PartitionedDataset, LabeledSet
o = FLMUncertaintySampler(penalty=.5, penalty_iter=3, log=True, max_iter=3, num_subspaces=1)
seen = []
class Clf:
    weight_matrix = None
    class penalty_term: penalty = None
    def fit(self, *a, **k): seen.append(self.penalty_term.penalty)
o.clf = Clf()
ds = PartitionedDataset(np.random.rand(5, 2))
ds.move_to_labeled(LabeledSet([1., 0.], None, [0, 1]))
for _ in range(3): o.fit_data(ds)
assert abs(seen[-1] - .5) < 1e-9 and max(seen) <= .5 + 1e-9, seen
'''),
]
