"""Version-space learners of the real code over given hypotheses (C15)."""
import sys
import types

import numpy as np

from harness.base import req, rng_of

# pystan is not installed here: an empty module stands in so that the package can be imported
if 'pystan' not in sys.modules:
    sys.modules['pystan'] = types.ModuleType('pystan')
    sys.modules['pystan'].StanModel = object

RULE = ('random hypotheses handed out by a stub sampler, query points, both vote kinds, kernel versions plain and decomposed, label '
        'encodings; non-trivial: at least two hypotheses')


def cases(seed, tier):
    r = rng_of(seed, 15)
    for k in range(3000 if tier == 'thorough' else 300):
        n, m, d, s = r.randint(1, 5), r.randint(1, 5), r.randint(1, 4), r.randint(1, 7)
        val = lambda: r.choice([0, 1, -1, .5, 2, -2.25, .75])
        yield {'X': [[val() for _ in range(d)] for _ in range(n)], 'Q': [[val() for _ in range(d)] for _ in range(m)],
               'W': [[val() for _ in range(max(n, d) + 2)] for _ in range(s)], 'bias': r.random() < .5, 'stan': r.random() < .3,
               'kernel': r.choice([None, None, 'plain', 'decompose']), 'name': r.choice(['rbf', 'linear', 'poly']),
               'neg': r.choice([0., -1.]), 'y': [r.randint(0, 1) for _ in range(n)]}


class Sampler:
    def __init__(self, W):
        self.W, self.calls = W, []

    def sample(self, X, y, k):
        self.calls.append((np.array(X), np.array(y), k))
        return self.W[:k, :X.shape[1]].copy()

    def clear(self):
        self.calls.append('clear')


def options(case):
    """the options a learner is built with reach its sampler"""
    import inspect
    from aideme.active_learning import KernelVersionSpace, LinearVersionSpace, EntropyReductionLearner
    from aideme.active_learning.version_space import linear as L
    from harness.base import raises
    real, seen = L.HitAndRunSampler, []

    class Spy(real):
        def __init__(self, *a, **k):
            b = inspect.signature(real.__init__).bind(self, *a, **k)
            b.apply_defaults()
            seen.append(dict(b.arguments))
            super().__init__(*a, **k)
    f = case['y'][0] == 1
    opts = dict(single_chain=not f, warmup=17 + len(case['X']), thin=3, cache_samples=f, rounding=True, rounding_cache=case['bias'],
                rounding_options={'max_iter': 1234})
    L.HitAndRunSampler = Spy
    try:
        for cls in (L.DeterministicLogisticRegression, LinearVersionSpace, KernelVersionSpace, EntropyReductionLearner):
            del seen[:]
            o = cls(n_samples=6, add_intercept=case['bias'], **opts)
            for q, v in opts.items():
                req(not seen or q not in seen[-1] or seen[-1][q] == v, '%s: option %s=%s reached the sampler as %s', cls.__name__, q, v, seen and seen[-1].get(q))
            m = getattr(o, 'clf', o)
            m = getattr(m, 'logreg', m)
            for q, v in (('n_samples', 6), ('add_intercept', case['bias'])):
                req(getattr(m, q, v) == v, '%s: option %s=%s became %s', cls.__name__, q, v, getattr(m, q, v))
    finally:
        L.HitAndRunSampler = real
    for bad in ({'warmup': 0}, {'thin': 0}, {'warmup': -1}):
        req(raises(ValueError, lambda: real(**bad)), '%s accepted', bad)


def check(case):
    options(case)
    from aideme.active_learning.version_space import linear as L, kernel as K
    from aideme.active_learning.version_space.base import VersionSpaceBase
    from aideme.active_learning.version_space.bayesian.linear import StanBayesianLogisticRegression as SB
    from aideme.active_learning.version_space.hit_and_run import hit_and_run as H
    from aideme.active_learning import kernel as KM
    X, Q, W = (np.array(case[k], dtype=float) for k in 'XQW')
    X0, Q0 = X.copy(), Q.copy()
    y = np.where(np.array(case['y']) == 1, 1., case['neg'])
    s = Sampler(W)
    if case['stan']:
        base = SB.__new__(SB)
        L.BayesianLogisticRegressionBase.__init__(base, s, len(W), case['bias'])
    else:
        base = L.DeterministicLogisticRegression(n_samples=len(W), add_intercept=case['bias'], rounding=False)
        base.sampler = s
    clf, kern = base, None
    if case['kernel']:
        dec = case['kernel'] == 'decompose'
        clf = K.KernelBayesianLogisticRegression(base, decompose=dec, kernel=case['name'], gamma=.5, degree=2, coef0=1., jitter=.25)
        kern = KM.Kernel.get(case['name'], gamma=.5, degree=2, coef0=1.)
    learner = VersionSpaceBase(clf)
    learner.fit(X, y)
    Kx = X0
    Kq = Q0
    if kern is not None:
        Kx, Kq = kern(X0), kern(Q0, X0)
        if dec:
            A = Kx + .25 * np.eye(len(X0))
            Lo = np.linalg.cholesky(A)
            Kq = np.linalg.solve(Lo, Kq.T).T
            rest = np.diag(kern(Q0)) + .25 - (Kq ** 2).sum(axis=1)
            Kq = np.hstack([Kq, np.sqrt(np.maximum(rest, 0)).reshape(-1, 1)])
            Kx = np.hstack([Lo, np.zeros((len(X0), 1))])
    one = lambda M: np.hstack([np.ones((len(M), 1)), M]) if case['bias'] else M
    req(len(s.calls) == 1 and s.calls[0][2] == len(W), 'sampler calls %s', len(s.calls))
    req(np.allclose(np.tril(s.calls[0][0]) if kern is not None and dec and not case['bias'] else s.calls[0][0], one(Kx), atol=1e-9),
        'points given to the sampler: %s instead of %s', s.calls[0][0].tolist(), one(Kx).tolist())
    req(np.array_equal(s.calls[0][1], y), 'labels given to the sampler')
    Wd = W[:, :one(Kx).shape[1]]
    marg = one(Kq) @ Wd.T
    if np.abs(marg).size and np.abs(marg).min() < 1e-7 and not case['stan']:
        return False                  # a vote on the boundary: rounding decides
    votes = 1 / (1 + np.exp(-marg)) if case['stan'] else (marg > 0).astype(float)
    frac = votes.mean(axis=1)
    p = learner.predict_proba(Q)
    req(p.shape == (len(Q),) and np.allclose(p, frac, atol=1e-9), 'probability %s instead of the share of votes %s', p.tolist(), frac.tolist())
    if case['stan']:
        ok = np.abs(frac - .5) > 1e-9
    else:
        ok = np.ones(len(Q), dtype=bool)
    r = learner.predict(Q)
    req(np.array_equal(r[ok], (frac > .5)[ok].astype(float)), 'answers %s for fractions %s', r.tolist(), frac.tolist())
    req(np.allclose(learner.rank(Q), np.abs(frac - .5), atol=1e-9), 'ranks')
    req(np.array_equal(X, X0) and np.array_equal(Q, Q0), 'data modified')
    learner.clear()
    req(s.calls[-1] == 'clear', 'a reset does not reset the sampler')

    # signs of the constraints
    if not hasattr(H, 'BoundedPolyhedralCone'):
        return len(W) > 1
    seen = []

    class Stop(Exception):
        pass

    def cone(A):
        seen.append(np.array(A))
        raise Stop()
    old = H.BoundedPolyhedralCone
    H.BoundedPolyhedralCone = cone
    try:
        H.HitAndRunSampler(rounding=False).sample(X, y, 2)
    except Stop:
        pass
    finally:
        H.BoundedPolyhedralCone = old
    if seen:
        req(np.array_equal(seen[0], np.array([-x if l == 1 else x for x, l in zip(X0, y)])), 'constraints %s', seen[0].tolist())
    det = {'single_chain': False, 'n_samples': 5, 'warmup': 7, 'thin': 3, 'add_intercept': case['bias'], 'rounding': case['stan'], 'cache_samples': False}
    for o in (L.DeterministicLogisticRegression(**det),
              __import__('aideme.active_learning.version_space.base', fromlist=['x']).LinearVersionSpace(**det).clf):
        req(o.n_samples == 5 and o.add_intercept == case['bias'] and o.sampler.cache is False
            and (o.sampler.rounding_algorithm is not None) == case['stan'] and o.sampler.rounding_cache == case['stan'], 'configuration of the sampler')
    return len(W) > 1
