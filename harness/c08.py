"""Ranks of the uncertainty and disagreement strategies against their definitions (C08)."""
import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('every labeling state of 4 points with 4 background sizes and random larger datasets, probabilities on a grid that is symmetric '
        'around one half; non-trivial: at least one labeled and one unlabeled point')


def cases(seed, tier):
    import itertools
    for part in itertools.product('LIU', repeat=4):
        for bg in (1, 2, 3, 50):
            yield {'n': 4, 'part': ''.join(part), 'bg': bg, 'w': .25, 'ids': [3, 9, 1, 4], 'salt': 1}
    r = rng_of(seed, 8)
    for k in range(8000 if tier == 'thorough' else 700):
        n = r.randint(1, 10)
        yield {'n': n, 'part': ''.join(r.choice('LIU') for _ in range(n)), 'bg': r.choice([1, 2, 3, n, n + 3, 200]),
               'w': r.choice([1e-5, .5, 1, 2., 7]), 'ids': r.sample(range(50), n), 'salt': r.randint(0, 99)}


def check(case):
    import sklearn
    from aideme.explore import PartitionedDataset, LabeledSet
    from aideme.active_learning import UncertaintySampler, QueryByDisagreement
    n, ids, salt = case['n'], case['ids'], case['salt']
    X = np.array([[i * 1.5, (i * i + salt) % 5] for i in range(n)], dtype=float)

    class C(sklearn.base.BaseEstimator):
        log = []

        def __init__(self, a=1):
            self.a = a

        def fit(self, X, y, sample_weight=None):
            self.fits = getattr(self, 'fits', []) + [(np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight))]
            return self

        def score(self, X):
            k = 0 if not hasattr(self, 'fits') else int(10 * self.fits[-1][1].sum()) + len(self.fits[-1][0])
            return np.array([((3 * i + 7 * j + k + salt) % 11) / 10 for i, j in X])

        def predict_proba(self, X):
            return self.score(X)

        def predict(self, X):
            return (self.score(X) > .5).astype(float)

    c = C()
    Q = np.array([[a, b] for a in range(3) for b in range(2)], dtype=float)
    Q0, X0 = Q.copy(), X.copy()
    u = UncertaintySampler(c)
    y = np.array([(i + salt) % 2 for i in range(n)], dtype=float)
    y0 = y.copy()
    u.fit(X, y)
    req(len(c.fits) == 1 and np.array_equal(c.fits[0][0], X0) and np.array_equal(c.fits[0][1], y0), 'uncertainty: data of the fit')
    p = c.score(Q)
    req(np.array_equal(u.predict_proba(Q), p), 'uncertainty: probability')
    req(np.array_equal(u.predict(Q), (p > .5).astype(float)), 'uncertainty: prediction')
    req(np.allclose(u.rank(Q), np.abs(p - .5), atol=1e-12), 'uncertainty: rank %s for probabilities %s', list(u.rank(Q)), list(p))
    req(np.array_equal(X, X0) and np.array_equal(y, y0) and np.array_equal(Q, Q0), 'uncertainty: data modified')

    ds = PartitionedDataset(X, np.array(ids))
    L = [i for i in range(n) if case['part'][i] == 'L']
    lab = {ids[i]: float((i * 3 + salt) % 2) for i in L}
    if L:
        ds.move_to_labeled(LabeledSet([lab[ids[i]] for i in L], None, [ids[i] for i in L]))
    I = [ids[i] for i in range(n) if case['part'][i] == 'I']
    if I:
        ds.move_to_inferred(I)
    un = {tuple(X0[i]) for i in range(n) if case['part'][i] != 'L'}
    if not L or not un:
        return False
    base = C()
    q = QueryByDisagreement(base, case['bg'], case['w'])
    before = ds.training_set()
    before = before[0].copy(), before[1].copy()
    q.fit_data(ds)
    req(len(base.fits) == 1 and base.fits[0][2] is None, 'main model: fits')
    req(np.array_equal(base.fits[0][0], before[0]) and np.array_equal(base.fits[0][1], before[1]), 'main model is not fitted on the labeled points only')
    P, N = q._positively_biased_learner, q._negatively_biased_learner
    req(P is not N and P is not base and N is not base, 'models are shared')
    k = min(case['bg'], len(un))
    pairs = []
    for M, v in ((P, 1), (N, 0)):
        req(len(M.fits) == 1, 'biased model: fits')
        Z, z, w = M.fits[0]
        req(len(Z) == len(z) == len(w) == len(L) + k, 'biased model: %d points for %d labeled and %d background', len(Z), len(L), k)
        req(np.array_equal(Z[:len(L)], before[0]) and np.array_equal(z[:len(L)], before[1]) and (w[:len(L)] == 1).all(), 'biased model: labeled points')
        b = [tuple(x) for x in Z[len(L):]]
        req(len(set(b)) == k and set(b) <= un, 'biased model: background %s of unlabeled %s', b, un)
        req((z[len(L):] == v).all(), 'biased model: background labels')
        req(np.allclose(w[len(L):], case['w'], rtol=1e-12, atol=0), 'biased model: weights %s instead of %s', list(w[len(L):]), case['w'])
    after = ds.training_set()
    req(np.array_equal(after[0], before[0]) and np.array_equal(after[1], before[1]), 'training data modified')
    r = q.rank(Q)
    req(np.array_equal(r, (P.predict(Q) == N.predict(Q)).astype(float)), 'rank is not the agreement')
    req(np.array_equal(q.predict(Q), base.predict(Q)) and np.array_equal(q.predict_proba(Q), base.predict_proba(Q)), 'prediction of the main model')
    for bad in ((0, 1.), (-1, 1.), (5, 0.), (5, -1.), (2.5, 1.)):
        req(raises(ValueError, QueryByDisagreement, C(), *bad), 'parameters %s accepted', bad)
    return True
