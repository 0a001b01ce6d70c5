F = 'aideme/active_learning/factorization/'
V = 'aideme/active_learning/version_space/'
PRE = '''import sys, types, warnings
import numpy as np
warnings.simplefilter('ignore')
'''
SPECS = [
dict(id='c13-factorized-cap', property='C13', file='aideme/active_learning/dsm/model.py',
     old='''        val = 1.0 if self.is_all_valid else 0.5
        prediction''',
     new='''        val = 1.0 if self.polytope_models[-1].is_valid else 0.5
        prediction''',
     needs='an invalid subspace polytope other than the last one, and a point positive in all valid subspaces',
     what_it_breaks='certain positive although a subspace is unknown',
     demo=PRE + '''
from aideme.active_learning.dsm.model import FactorizedPolytopeModel
m = FactorizedPolytopeModel([[0], [1]], mode='persist')
m.update(np.array([[0., 0.], [1., 1.]]), np.array([[1., 1.], [1., 1.]]))
class Bad:
    is_valid = False
m.polytope_models[0] = Bad()
r = m.predict(np.array([[.5, .5]]))
assert r.tolist() == [.5], r
'''),
dict(id='c13-factorized-columns', property='C13', file='aideme/active_learning/dsm/model.py',
     old='''        return ((i, idx, pol) for i, (idx, pol) in enumerate(zip(self.partition, self.polytope_models)) if pol.is_valid)''',
     new='''        valid = [(idx, pol) for idx, pol in zip(self.partition, self.polytope_models) if pol.is_valid]
        return ((i, idx, pol) for i, (idx, pol) in enumerate(valid))''',
     needs='an invalid subspace before a valid one',
     what_it_breaks='a subspace is updated with the partial labels of another one',
     demo=PRE + '''
from aideme.active_learning.dsm.model import FactorizedPolytopeModel
m = FactorizedPolytopeModel([[0], [1]], mode='persist')
seen = []
class Bad:
    is_valid = False
class Good:
    is_valid = True
    def update(self, X, y):
        seen.append(y.tolist())
        return True
m.polytope_models = [Bad(), Good()]
m.update(np.array([[0., 0.], [1., 1.]]), np.array([[1., 0.], [1., 0.]]))
assert seen == [[0., 0.]], seen
'''),
dict(id='c14-start-norm', property='C14', file=V + 'hit_and_run/hit_and_run.py',
     old='''            return ellipsoid.center / np.linalg.norm(ellipsoid.center)''',
     new='''            return ellipsoid.center / max(1, np.square(ellipsoid.center).max())''',
     needs='a rounding ellipsoid whose centre has norm above one but no coordinate above one',
     what_it_breaks='the chain starts outside the unit ball',
     demo=PRE + '''
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
class Round:
    def fit(self, body, elp=None):
        e = Ellipsoid(2)
        e.center = np.array([.9, .9])
        return e
s = HitAndRunSampler(warmup=1, thin=1)
s.rounding_algorithm = Round()
try:
    w = s.sample(np.array([[1., 0.], [0., 1.]]), np.array([1., 1.]), 3)
except RuntimeError as e:
    sys.exit('starting point outside the ball: %s' % e)
assert (np.linalg.norm(w, axis=1) <= 1 + 1e-9).all(), w
'''),
dict(id='c14-multi-chain-warm', property='C14', file=V + 'hit_and_run/hit_and_run.py',
     old='''        for i in range(1, sample_size):
            samples[i] = chain.advance(thin)''',
     new='''        for i in range(1, sample_size):
            samples[i] = chain.advance(min(thin, warmup))''',
     needs='thinning longer than the warm-up',
     what_it_breaks='samples closer together than the configured thinning',
     demo=PRE + '''
from aideme.active_learning.version_space.hit_and_run.hit_and_run import single_chain_sampler
steps = []
class Chain:
    dim = 2
    def reset(self):
        pass
    def advance(self, k):
        steps.append(k)
        return np.zeros(2)
single_chain_sampler(3, 7)(Chain(), 3)
assert steps == [3, 7, 7], steps
'''),
dict(id='c15-tie-positive', property='C15', file=V + 'linear.py',
     old='''        return (self.predict_proba(X) > 0.5).astype('float')''',
     new='''        return np.round(self.predict_proba(X) + 1e-12).astype('float')''',
     needs='an even number of hypotheses that vote half and half',
     what_it_breaks='a tie is predicted positive',
     demo=PRE + '''
from aideme.active_learning.version_space.linear import DeterministicLogisticRegression
l = DeterministicLogisticRegression(n_samples=2, add_intercept=False)
class S:
    def sample(self, X, y, n):
        return np.array([[1., 0.], [-1., 0.]])
l.sampler = S()
l.fit(np.eye(2), np.array([1., 0.]))
assert l.predict_proba(np.array([[1., 0.]])).tolist() == [.5]
assert l.predict(np.array([[1., 0.]])).tolist() == [0.]
'''),
dict(id='c15-kernel-delta', property='C15', file=V + 'kernel.py',
     old='''            delta = self.kernel.diagonal(X) - np.einsum('ir, ir -> i', K, K)''',
     new='''            delta = self.kernel.diagonal(X)[:1] - np.einsum('ir, ir -> i', K, K)''',
     needs='a decomposed kernel whose diagonal differs between query points (linear, polynomial)',
     what_it_breaks='the component outside the training span of all points but the first is wrong',
     demo=PRE + '''
from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
seen = []
class L:
    def clear(self): pass
    def fit(self, K, y): pass
    def predict_proba(self, K):
        seen.append(K.copy())
        return K[:, 0]
k = KernelBayesianLogisticRegression(L(), decompose=True, kernel='poly', degree=2, coef0=1.)
X = np.array([[1., 0.], [.5, 1.]])
k.fit(X, np.array([1., 0.]))
Q = np.array([[3., 1.], [0., 2.], [5., 5.]])
k.predict_proba(Q)
a = seen[0]
want = (Q @ Q.T / 2 + 1).diagonal() ** 2
assert np.allclose((a ** 2).sum(axis=1), want, rtol=1e-6), ((a ** 2).sum(axis=1), want)
'''),
dict(id='c16-shared-transformer', property='C16', file='aideme/active_learning/kernel.py',
     old='''        self._transformers = [base_transformer.clone() for _ in factorization]''',
     new='''        clones = {len(subspace): base_transformer.clone() for subspace in factorization}
        self._transformers = [clones[len(subspace)] for subspace in factorization]''',
     needs='two subspaces with the same number of columns, fitted first and transformed later',
     what_it_breaks='subspaces share the training points of another one',
     demo=PRE + '''
from aideme.active_learning.kernel import FactorizedKernelTransform, KernelTransformer
t = FactorizedKernelTransform(KernelTransformer.get('linear'), [[0], [1]])
X = np.array([[1., 10.], [2., 20.]])
t.fit(X)
K = t.transform(X)
assert np.allclose(K[:, :, 0], np.outer(X[:, 0], X[:, 0])) and np.allclose(K[:, :, 1], np.outer(X[:, 1], X[:, 1])), K
'''),
dict(id='c16-clone-fitted', property='C16', file='aideme/active_learning/kernel.py',
     old='''        return KernelTransformerWrapper(self._kernel)''',
     new='''        kt = KernelTransformerWrapper(self._kernel)
        kt._X_train = self._X_train
        return kt''',
     needs='a clone of a fitted transformer',
     what_it_breaks='the clone shares the fitted data',
     demo=PRE + '''
from aideme.active_learning.kernel import KernelTransformer
t = KernelTransformer.get('linear')
t.fit(np.eye(2))
c = t.clone()
try:
    n = c.n_components
except Exception:
    n = None
assert n is None, n
'''),
dict(id='c16-poly-gamma', property='C16', file='aideme/active_learning/kernel.py',
     old='''        gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
''',
     new='''        gamma = 1 / X.shape[1] if not self.gamma or self.gamma == 1 else self.gamma
''',
     needs='a polynomial kernel with gamma exactly one in more than one dimension',
     what_it_breaks='the diagonal differs from the diagonal of the matrix',
     demo=PRE + '''
from aideme.active_learning.kernel import Kernel
k = Kernel.get('poly', gamma=1., degree=2, coef0=1.)
X = np.array([[1., 2.], [3., -1.]])
assert np.allclose(k.diagonal(X), np.diag(k(X))), (k.diagonal(X), np.diag(k(X)))
'''),
dict(id='c17-last-batch', property='C17', file=F + 'linear.py',
     old='''        if self._cur_pos >= len(self.X):''',
     new='''        if self._cur_pos + self._batch_size > len(self.X):''',
     needs='a batch size that does not divide the number of points',
     what_it_breaks='the points of the last short batch are skipped in every pass',
     demo=PRE + '''
from aideme.active_learning.factorization.linear import LinearFactorizationLoss
l = LinearFactorizationLoss(np.arange(10.).reshape(5, 2), np.array([1., 0, 1, 0, 1]))
l.set_batch_size(2)
seen = np.concatenate([l.get_next_batch() for _ in range(3)])
assert sorted(seen.tolist()) == [0, 1, 2, 3, 4], seen
'''),
dict(id='c17-batch-scale', property='C17', file=F + 'linear.py',
     old='''        weights /= margins.shape[0]''',
     new='''        weights /= len(self.y)''',
     needs='mini-batches',
     what_it_breaks='the gradient of a batch is not the gradient of the mean loss of its points',
     demo=PRE + '''
from aideme.active_learning.factorization.linear import LinearFactorizationLoss
rs = np.random.RandomState(0)
X, y = rs.normal(size=(6, 2)), np.array([1., 0, 1, 0, 1, 0])
l = LinearFactorizationLoss(X, y)
l.set_batch_size(2)
nxt = l.get_next_batch
got = []
def rec():
    got.append(nxt())
    return got[-1]
l.get_next_batch = rec
w = rs.normal(size=(1, 3))
g = l.compute_grad(w)
b = LinearFactorizationLoss(X[got[0]], y[got[0]])
assert np.allclose(g, b.compute_grad(w)), (g, b.compute_grad(w))
'''),
dict(id='c17-saturated', property='C17', file=F + 'linear.py',
     old='''        weights[y > 0] = -1''',
     new='''        weights[(y > 0) & (weights < 1e8)] = -1''',
     needs='a positive point that is already fitted almost perfectly',
     what_it_breaks='its gradient has the sign of a negative point',
     demo=PRE + '''
from aideme.active_learning.factorization.linear import LinearFactorizationLoss
l = LinearFactorizationLoss(np.array([[25.]]), np.array([1.]), add_bias=False)
g = l.compute_grad(np.array([[1.]]))
assert (g <= 0).all(), g
'''),
dict(id='c18-tolerance-zero-rows', property='C18', file=F + 'penalty.py',
     old='''        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= lamb2 + tol)''',
     new='''        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= max(lamb2, tol))''',
     needs='a zero row whose gradient exceeds the bound by less than the tolerance',
     what_it_breaks='optimal points within the tolerance are rejected',
     demo=PRE + '''
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
p = SparseGroupLassoPenalty(.1, 1.)
assert p.is_subgradient(np.array([[1.15, 0.]]), np.zeros((1, 2)), .1)
'''),
dict(id='c18-prox-order', property='C18', file=F + 'penalty.py',
     old='''        return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)''',
     new='''        return self.l1_penalty.proximal(self.l2_sqrt_penalty.proximal(x, eta), eta)''',
     needs='weights near the thresholds',
     what_it_breaks='the composition in the wrong order is not the minimiser',
     demo=PRE + '''
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
p = SparseGroupLassoPenalty(.5, .5)
x = np.array([[2., .6]])
z = p.proximal(x, 1.)
f = lambda w: p.loss(w) + ((w - x) ** 2).sum() / 2
rs = np.random.RandomState(0)
best = min(f(z + 10 ** -rs.uniform(0, 3) * rs.normal(size=z.shape)) for _ in range(5000))
assert f(z) <= best + 1e-9, (f(z), best)
'''),
dict(id='c18-group-grad', property='C18', file=F + 'penalty.py',
     old='''        grad = (2 * self._penalty) * x * (col_sq - xsq)''',
     new='''        grad = self._penalty * x * (col_sq - xsq) * len(x)''',
     needs='interaction penalty with a number of subspaces other than two',
     what_it_breaks='the gradient is not the derivative of the loss',
     demo=PRE + '''
from aideme.active_learning.factorization.penalty import InteractionPenalty
p = InteractionPenalty(.7)
x = np.array([[1., 2.], [.5, -1.], [2., .3]])
e = np.zeros_like(x); e[1, 0] = 1e-5
num = (p.loss(x + e) - p.loss(x - e)) / 2e-5
assert abs(num - p.grad(x)[1, 0]) < 1e-5, (num, p.grad(x)[1, 0])
'''),
dict(id='c19-fista-theta', property='C19', file=F + 'optimization.py',
     old='''    def _reset(self) -> None:
        self.y = None
        self.theta = 1.
''',
     new='''    def _reset(self) -> None:
        self.y = None
''',
     needs='a second run of the same FISTA optimizer',
     what_it_breaks='the second run starts with the momentum of the first one',
     demo=PRE + '''
from aideme.active_learning.factorization.optimization import FISTA
from aideme.active_learning.factorization.penalty import L1Penalty
o = FISTA(L1Penalty(.1), step_size=.1, max_iter=4)
x0 = np.array([[3., -2.]])
a = o.minimize(x0, lambda x: (x ** 2).sum(), lambda x: 2 * x)
b = o.minimize(x0, lambda x: (x ** 2).sum(), lambda x: 2 * x)
assert np.allclose(a.x, b.x), (a.x, b.x)
'''),
dict(id='c19-schedule-offset', property='C19', file=F + 'step_size_scheduler.py',
     old='''        return self.step_size * self.decay ** (result.it // self.adapt_every)''',
     new='''        return self.step_size * self.decay ** round(result.it / self.adapt_every)''',
     needs='exponential decay adapted less often than every iteration',
     what_it_breaks='the step size drops half a period early',
     demo=PRE + '''
from aideme.active_learning.factorization.step_size_scheduler import ExponentialDecayScheduler
class R:
    it = 4
s = ExponentialDecayScheduler(1., .5, adapt_every=5)(R, None)
assert s == 1., s
'''),
dict(id='c19-noise-rows', property='C19', file=F + 'optimization.py',
     old='''        noise /= np.linalg.norm(noise)''',
     new='''        noise /= np.linalg.norm(noise, axis=-1, keepdims=True)''',
     needs='more than one subspace',
     what_it_breaks='the noise has length sqrt(number of subspaces)',
     demo=PRE + '''
from aideme.active_learning.factorization.optimization import NoisyGradientDescent
np.random.seed(0)
seen = []
o = NoisyGradientDescent(step_size=1., gtol=0, max_iter=1, callback=lambda x: seen.append(x.copy()))
o.minimize(np.zeros((3, 2)), lambda x: 0., lambda x: np.zeros_like(x))
n = np.linalg.norm(seen[0] - seen[1])
assert abs(n - 1) < 1e-9, n
'''),
dict(id='c19-first-converged', property='C19', file=F + 'optimization.py',
     old='''        result = self.__build_initial_result_object()
        new_x = x0.copy()
        self.__process_new_iter(grad, new_x, result)
''',
     new='''        result = self.__build_initial_result_object()
        new_x = x0.copy()
        self.__process_new_iter(grad, new_x, result)
        result.success = result.success and self._callback is None
''',
     needs='a starting point within tolerance and a callback',
     what_it_breaks='an optimal starting point is left',
     demo=PRE + '''
from aideme.active_learning.factorization.optimization import GradientDescent
o = GradientDescent(step_size=.1, gtol=.5, max_iter=3, callback=lambda x: None)
r = o.minimize(np.array([[.1]]), lambda x: (x ** 2).sum() / 2, lambda x: x)
assert r.it == 0 and r.x.tolist() == [[.1]], (r.it, r.x)
'''),
dict(id='c24-template', property='C24', file=V + 'subspace.py',
     old='''        self.learners = [self.base_learner.clone() for _ in self.partition]''',
     new='''        self.learners = [self.base_learner] if len(self.partition) == 1 else [self.base_learner.clone() for _ in self.partition]''',
     needs='a single subspace and a template used afterwards',
     what_it_breaks="the user's template is fitted",
     demo=PRE + '''
from aideme.active_learning.version_space.subspace import SubspaceLearner
class T:
    n = 0
    def clone(self):
        return T()
    def fit(self, X, y):
        self.n += 1
t = T()
SubspaceLearner(t).fit(np.eye(2), np.ones((2, 1)))
assert t.n == 0
'''),
dict(id='c24-or-prob', property='C24', file=V + 'subspace.py',
     old='''            return (self.predict_proba(X) > 0.5).astype('float')

        return self.label_function''',
     new='''            return (self.predict_proba_all(X) > 0.5).all(axis=0).astype('float')

        return self.label_function''',
     needs='no label function and a probability function other than MIN',
     what_it_breaks='the label does not follow the combined probability',
     demo=PRE + '''
from aideme.active_learning.version_space.subspace import SubspaceLearner
class T:
    k = 0
    def clone(self):
        t = T(); t.p = [.9, .1][T.k % 2]; T.k += 1
        return t
    def predict_proba(self, X):
        return np.full(len(X), self.p)
l = SubspaceLearner(T(), [[0], [1]], label_function=None, probability_function='MAX')
assert l.predict(np.eye(2)).tolist() == [1., 1.], l.predict(np.eye(2))
'''),
dict(id='c25-clear-phase', property='C25', file=F + 'active_learning.py',
     old='''            self._fact_model.clear()
            self._fact_manager.clear()
        self.__is_full_fact_phase = False
        self.__it = 0
''',
     new='''            self._fact_model.clear()
            self._fact_manager.clear()
        self.__it = 0
''',
     needs='a second exploration after one that reached the subspace model',
     what_it_breaks='the second exploration uses the subspace model right after the switch',
     demo=PRE + '''
from aideme.active_learning.factorization import active_learning as A
from aideme.explore import PartitionedDataset, LabeledSet
A.compute_factorization_and_partial_labels = lambda data, *a, **k: ([[0], [1]], np.ones((2, 2)))
A.compute_relevant_attributes = lambda m: np.eye(2, dtype=bool)
class M:
    """any model"""
    num_subspaces, weights, bias, weight_matrix, optimizer = 2, np.eye(2), np.zeros(2), np.eye(2, 3), None
    def __init__(self, name): self.name = name
    def clear(self): pass
    def fit(self, *a, **k): pass
    def fit_data(self, d): pass
    def set_factorization_structure(self, **k): pass
    def predict(self, X): return self.name
l = A.SwapLearner.__new__(A.SwapLearner)
try:
    A.SwapLearner.__init__(l, active_learner=M('first'), swap_model=M('swap'), refining_model=M('refined'), fact_model=M('fact'), swap_iter=1, num_subspaces=2,
                           user_fact=[[0], [1]], compute_fact_every=1, fact_repeat=1, prune=False, train_on_prediction=False)
except TypeError:
    import inspect
    sys.exit('signature: %s' % inspect.signature(A.SwapLearner.__init__)) if False else None
    raise
d = PartitionedDataset(np.eye(4, 2), copy=True)
d.move_to_labeled(LabeledSet([1., 0.], index=[0, 1]))
def run():
    out = []
    for _ in range(6):
        l.fit_data(d)
        out.append(l.predict(None))
    return out
l.clear(); a = run(); l.clear(); b = run()
assert a == b and 'fact' in a, (a, b)
'''),
dict(id='c25-stable-first', property='C25', file=F + 'active_learning.py',
     old='''        if self.__fact_prev is None or factorization != self.__fact_prev:
            self.__fact_prev = factorization
            self.__fact_count = 0''',
     new='''        if self.__fact_prev is None or len(factorization) != len(self.__fact_prev):
            self.__fact_prev = factorization
            self.__fact_count = 0''',
     needs='successive structures of equal size but different content',
     what_it_breaks='a structure that was not repeated is accepted',
     demo=PRE + '''
from aideme.active_learning.factorization.active_learning import FactorizationManager
m = FactorizationManager([[0, 1], [2]], stable_count=1)
m.update([[0], [1, 2]])
m.update([[0, 1], [2]])
assert not m.can_switch_to_full_factorization([[0, 1], [2]])
m.update([[0, 1], [2]])
assert m.can_switch_to_full_factorization([[0, 1], [2]])
'''),
dict(id='c27-prune-any', property='C27', file=F + 'learn.py',
     old='''        if not any(attrs.issubset(r) for j, r in enumerate(unique_subspaces) if i != j):''',
     new='''        if not any(attrs.issubset(r) for j, r in enumerate(unique_subspaces) if abs(i - j) == 1):''',
     needs='a subspace contained in another one that is not its neighbour in the order of the masks',
     what_it_breaks='a group contained in another one is kept',
     demo=PRE + '''
from aideme.active_learning.factorization.learn import compute_factorization
for rows in ([[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1]], [[1, 0, 0], [1, 0, 1], [1, 1, 0]], [[1, 1, 0], [0, 1, 0]], [[0, 1, 1], [0, 0, 1], [1, 0, 0]], [[1, 0, 1], [1, 0, 0]], [[0, 1, 0], [1, 1, 1]]):
    f = [set(g) for g in compute_factorization(np.array(rows, dtype=bool))]
    assert not any(a < b for a in f for b in f), (rows, f)
    m = [set(np.where(r)[0]) for r in np.array(rows)]
    assert all(any(s <= g for g in f) for s in m), (rows, f)
m = np.array([[0, 1, 0], [1, 1, 0], [1, 0, 0], [0, 0, 1]], dtype=bool)
for p in range(24):
    f = [set(g) for g in compute_factorization(m[np.random.RandomState(p).permutation(4)])]
    assert not any(a < b for a in f for b in f), f
'''),
dict(id='c27-partial-share', property='C27', file=F + 'learn.py',
     old='''                ps[:, i] *= np.power(p[:, j], 1 / len(idx))''',
     new='''                ps[:, i] *= p[:, j] if len(idx) == 1 else np.sqrt(p[:, j])''',
     needs='a subspace contained in three or more groups',
     what_it_breaks='its probability is not shared equally among the groups',
     demo=PRE + '''
from aideme.active_learning.factorization import learn
f = getattr(learn, '__compute_partial_labels')
r = f([[0]], [[0, 1], [0, 2], [0, 3]], np.array([[.2]]))
assert r.tolist() == [[1., 1., 1.]], r
'''),
dict(id='c27-prune-inplace', property='C27', file=F + 'learn.py',
     old='''    pruned_learner = learner.copy()
''',
     new='''    pruned_learner = learner.copy() if len(relevant_rows) else learner
''',
     needs='a threshold that prunes every subspace',
     what_it_breaks='the original classifier loses its weights',
     demo=PRE + '''
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import Adam
from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
l = LinearFactorizationLearner(Adam())
l._weights, l._bias = np.array([[0., 0.]]), np.array([5.])
prune_irrelevant_subspaces(np.eye(2), l)
assert l.num_subspaces == 1
'''),
dict(id='c28-ellipsoid-shallow', property='C28', file=V + 'hit_and_run/ellipsoid.py',
     old='''        if alpha <= -1.0 / self.dim:
            return False
''',
     new='''        if alpha <= -1.0 / (self.dim - 1):
            return False
''',
     needs='a cut of depth between -1/(n-1) and -1/n',
     what_it_breaks='a shallow cut changes the ellipsoid',
     demo=PRE + '''
from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
e = Ellipsoid(3, compute_scale_matrix=True)
s = e.scale.copy()
r = e.cut(.4, np.array([1., 0., 0.]))
assert not r and np.array_equal(e.scale, s), (r, e.scale)
'''),
dict(id='c28-chord-empty', property='C28', file=V + 'hit_and_run/polyhedral_cone.py',
     old='''        upper_extreme = upper.min() if len(upper) > 0 else np.inf
''',
     new='''        upper_extreme = upper.min() if len(upper) > len(lower) // 2 or len(upper) > 1 else np.inf
''',
     needs='one upper constraint and at least two lower ones on the chord',
     what_it_breaks='the chord leaves the cone',
     demo=PRE + '''
from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
b = BoundedPolyhedralCone(np.array([[-1., 0.], [-1., -.1], [1., -.5]]))
x, d = np.array([.1, .5]), np.array([1., 0.])
t1, t2 = b.intersection(x, d)
for t in (t1, t2):
    assert (b.A @ (x + t * d) <= 1e-9).all(), (t1, t2)
'''),
dict(id='c29-failed-ignored', property='C29', file=V + 'bayesian/laplace.py',
     old='''        if not res.success:''',
     new='''        if res.status > 1:''',
     needs='an optimiser that runs out of iterations',
     what_it_breaks='a failed optimisation is accepted',
     demo=PRE + '''
m = sys.modules.setdefault('pystan', types.ModuleType('pystan'))
m.StanModel = object
from aideme.active_learning.version_space.bayesian.laplace import LaplaceBayesianLogisticRegression
rs = np.random.RandomState(0)
X = rs.normal(size=(30, 4)) * [1, 10, .1, 3]
l = LaplaceBayesianLogisticRegression(prior_std=10., max_iter=2)
try:
    l.fit(X, (X[:, 0] + .3 * rs.normal(size=30) > 0) * 1.)
except RuntimeError:
    sys.exit(0)
sys.exit('accepted')
'''),
dict(id='c29-kernel-variance', property='C29', file=V + 'bayesian/laplace.py',
     old='''        var = (1 - inner) / self._info
''',
     new='''        var = (1 - inner) / max(self._info, 1)
''',
     needs='a prior standard deviation above one',
     what_it_breaks='the posterior variance is too small',
     demo=PRE + '''
m = sys.modules.setdefault('pystan', types.ModuleType('pystan'))
m.StanModel = object
from aideme.active_learning.version_space.bayesian.laplace import KernelLaplaceBayesianLogisticRegression
from scipy.linalg import solve_triangular
l = KernelLaplaceBayesianLogisticRegression(prior_std=2.)
l._L, l.C = np.eye(2), np.ones(2) * .5
v = l._compute_variance(np.array([[.2, .4]]))
assert np.allclose(v, (1 - .01 - .04) * 4), v
'''),
]
