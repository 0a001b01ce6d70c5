"""Ranks of the entropy-reduction learner and of the SVM margin strategies against their definitions (C30)."""
import numpy as np

from harness.base import Fail, Skip, req, rng_of, raises

RULE = ('random hypotheses, candidates and samples for the entropy learner (some with no cut, one cut or ties), random labeled points and '
        'kernels for the margin strategies; non-trivial: some ranks compared')


def cases(seed, tier):
    r = rng_of(seed, 30)
    for k in range(6000 if tier == 'thorough' else 700):
        kind = ['entropy', 'entropy', 'entropy', 'simple', 'ratio', 'params', 'session'][k % 7]
        yield {'kind': kind, 'seed': r.randint(0, 10 ** 6), 'n': r.randint(1, 9), 's': r.choice([None, 1, 2, 5, 40]), 'h': r.randint(1, 9),
               'd': r.randint(1, 3), 'N': r.randint(2, 12), 'mode': r.choice(['rand', 'rand', 'none', 'ties', 'extreme'])}


def check(case):
    rs = np.random.RandomState(case['seed'])
    np.random.seed(case['seed'])
    globals()['do_' + case['kind']](case, rs)
    return True


def h2(p):
    return sum(-q * np.log(q) for q in (p, 1 - p) if q > 0)


class Votes:
    """hypotheses as half-spaces"""

    def __init__(self, W):
        self.W, self.fits, self.cleared = W, [], 0

    def fit(self, X, y):
        self.fits.append((np.array(X), np.array(y)))

    def clear(self):
        self.cleared += 1

    def predict_all(self, X):
        return (self.W[:, :1] + self.W[:, 1:] @ np.asarray(X).T > 0).astype('float')

    def predict_proba(self, X):
        return np.mean(self.predict_all(X), axis=0)

    def predict(self, X):
        return (self.predict_proba(X) > .5).astype(float)


def do_entropy(case, rs):
    from aideme.active_learning import EntropyReductionLearner
    from aideme.explore import PartitionedDataset, LabeledSet
    N, d, n, h = case['N'], case['d'], case['n'], case['h']
    data = PartitionedDataset(rs.randn(N, d))
    X0 = np.array(data.data)
    data.move_to_labeled(LabeledSet([1., 0.], None, [0, 1]))
    l = EntropyReductionLearner(data_sample_size=case['s'], n_samples=h)
    W = rs.randn(h, d + 1)
    if case['mode'] == 'none':
        W[:] = W[0]
    if case['mode'] == 'extreme':
        W[:, 0] += 3 * rs.randint(-1, 2)
    clf = l.clf = Votes(W)
    seen, orig = [], data.sample
    data.sample = lambda *a, **k: seen.append(orig(*a, **k)) or seen[-1]
    l.fit_data(data)
    req(len(clf.fits) == 1 and np.array_equal(clf.fits[0][0], X0[:2]) or len(clf.fits[0][0]) == 2, 'fitted on %s', clf.fits)
    Q = rs.randn(n, d)
    if case['mode'] == 'ties':
        Q = np.round(Q)
    if len(seen) != 1:
        raise Fail('%d samples were drawn by fit_data' % len(seen))
    S = np.array(seen[0])
    req(len(S) == (N if case['s'] is None else min(N, case['s'])), 'sample of %d points, configured %s of %d', len(S), case['s'], N)
    Q0 = Q.copy()
    got = np.asarray(l.rank(Q), float)
    req(np.array_equal(Q, Q0) and np.array_equal(S, seen[0]), 'the points were changed')
    H, G = clf.predict_all(Q), clf.predict_all(S)
    p = H.mean(axis=0)
    c = np.abs(p - .5)
    want = np.full(n, np.inf)
    if c.min() == .5:
        want[:] = 0
    else:
        for i in np.flatnonzero(c == c.min()):
            want[i] = 0
            for v, q in ((1, p[i]), (0, 1 - p[i])):
                want[i] += q * np.mean([h2(G[H[:, i] == v, j].mean()) for j in range(len(S))])
    ok = got.shape == want.shape and np.array_equal(np.isinf(got), np.isinf(want)) and np.allclose(got[np.isfinite(want)], want[np.isfinite(want)], atol=1e-9)
    req(ok, 'ranks %s, expected %s (votes %s)', got.tolist(), want.tolist(), p.tolist())
    req(np.array_equal(np.asarray(l.rank(Q), float), got), 'the same ranks when asked again')
    req(np.array_equal(l.predict_all(Q), H) and np.array_equal(l.predict_proba(Q), p), 'votes of the model')
    # a second fit draws a new sample, a reset resets the model
    l.fit_data(data)
    req(len(seen) == 2, 'no new sample at the next fit')
    l.clear()
    req(clf.cleared == 1, 'a reset did not reset the model')


def labeled(case, rs):
    N, d = case['N'] + 2, case['d']
    X = rs.randn(N, d)
    y = (X[:, 0] + .3 * rs.randn(N) > 0).astype(float)
    y[:2] = 1, 0
    return X, y, rs.randn(case['n'], d)


def svc(case, rs):
    return dict(C=float(rs.choice([.5, 1., 100.])), kernel=str(rs.choice(['rbf', 'linear'])), gamma=float(rs.choice([.1, 1.])))


def do_simple(case, rs):
    from aideme.active_learning import SimpleMargin
    from sklearn.svm import SVC
    X, y, Q = labeled(case, rs)
    k = svc(case, rs)
    m = SimpleMargin(**k)
    m.fit(X, y)
    ref = SVC(decision_function_shape='ovo', **k).fit(X, y)
    v = ref.decision_function(Q)
    req(np.allclose(m.rank(Q), np.abs(v), atol=1e-9), 'ranks %s, decision values %s', m.rank(Q).tolist(), v.tolist())
    req(np.allclose(m.predict_proba(Q), 1 / (1 + np.exp(-v)), atol=1e-9), 'probabilities')
    req(np.array_equal(m.predict(Q), ref.predict(Q)), 'predictions')


def do_ratio(case, rs):
    from aideme.active_learning import RatioMargin
    from sklearn.svm import SVC
    X, y, Q = labeled(case, rs)
    k = svc(case, rs)
    m = RatioMargin(**k)
    X0, y0, Q0 = X.copy(), y.copy(), Q.copy()
    m.fit(X, y)
    req(np.array_equal(X, X0) and np.array_equal(y, y0), 'the labeled points were changed')
    before = m.clf.decision_function(Q)

    def norm(x, lb):
        s = SVC(decision_function_shape='ovo', **k).fit(np.vstack([X0, x]), np.append(y0, lb))
        return float(np.ravel(s.dual_coef_).dot(s.decision_function(s.support_vectors_)))
    for t in range(2):
        got = np.asarray(m.rank(Q), float)
        for i, x in enumerate(Q0):
            a, b = norm(x, 0.), norm(x, 1.)
            if min(a, b) > 1e-9:
                req(abs(got[i] + min(a, b) / max(a, b)) < 1e-6, 'rank %s of point %d: margins %s and %s', got[i], i, a, b)
        req(len(got) == len(Q0), 'one rank per point')
        req(np.array_equal(Q, Q0), 'the points were changed')
        req(np.array_equal(m.clf.decision_function(Q), before), 'ranking changed the fitted model')


def do_params(case, rs):
    from aideme.active_learning import EntropyReductionLearner
    from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
    for bad in (0, -1, 1.5):
        req(raises((ValueError, TypeError), lambda: EntropyReductionLearner(data_sample_size=bad)), 'sample size %s accepted', bad)
    import inspect
    import aideme.active_learning.version_space.linear as L
    real, seen = L.HitAndRunSampler, []

    class Spy(real):
        def __init__(self, *a, **k):
            b = inspect.signature(real.__init__).bind(self, *a, **k)
            b.apply_defaults()
            seen.append(dict(b.arguments))
            super().__init__(*a, **k)
    opts = dict(single_chain=bool(case['h'] % 2), warmup=17, thin=3, cache_samples=bool(case['d'] % 2), rounding=True, rounding_cache=bool(case['n'] % 2),
                rounding_options={'max_iter': 1234})
    L.HitAndRunSampler = Spy
    try:
        o = EntropyReductionLearner(n_samples=case['h'], **opts)
    finally:
        L.HitAndRunSampler = real
    for q, v in opts.items():
        req(not seen or q not in seen[-1] or seen[-1][q] == v, 'option %s=%s reached the sampler as %s', q, v, seen and seen[-1].get(q))
    l = EntropyReductionLearner(n_samples=case['h'], kernel='poly', degree=case['d'], gamma=2., coef0=1.)
    k = l.clf.kernel
    k = getattr(k, '_IncrementedDiagonalKernel__base_kernel', None) or getattr(k, 'base_kernel', None) or k
    X = rs.randn(3, 2)
    from sklearn.metrics.pairwise import polynomial_kernel
    K = np.array(l.clf.kernel(X, X + 1))
    req(np.allclose(K, polynomial_kernel(X, X + 1, degree=case['d'], gamma=2., coef0=1.)), 'kernel parameters not passed on')


def do_session(case, rs):
    """a real session: the proposed point is one of the best cutters"""
    from aideme.active_learning import EntropyReductionLearner
    from aideme.explore import PartitionedDataset, LabeledSet
    X = rs.randn(case['N'] + 6, 2)
    data = PartitionedDataset(X.copy())
    y = (X[:, 0] > 0).astype(float)
    k = rs.permutation(len(X))[:4]
    y[k[0]], y[k[1]] = 1, 0
    data.move_to_labeled(LabeledSet(y[k], None, k))
    l = EntropyReductionLearner(data_sample_size=5, n_samples=4, warmup=5, thin=1)
    l.fit_data(data)
    un = data.unlabeled
    c = np.abs(l.predict_proba(un.data) - .5)
    ids = [int(i) for i in un.index]
    r = l.next_points_to_label(data)
    pos = [ids.index(int(i)) for i in np.ravel(r.index)]
    req(all(c[i] == c.min() for i in pos), 'the proposed point does not cut the version space best')
