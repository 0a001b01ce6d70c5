"""Factorization loss, gradient and probabilities (C17)."""
import numpy as np

from harness.base import Fail, Skip, req, rng_of

RULE = ('random data, labels, weights, fixed structures, penalties and mini-batches; probabilities, losses and gradients against direct '
        'formulas in high precision and central differences; margins up to 600 in absolute value; non-trivial: values compared')
KINDS = ['kernels', 'extreme', 'loss', 'grad', 'batch', 'predict', 'part', 'partfit', 'saturated']


def cases(seed, tier):
    r = rng_of(seed, 17)
    for k in range(8000 if tier == 'thorough' else 800):
        yield {'kind': KINDS[k % len(KINDS)], 'seed': r.randint(0, 10 ** 6), 'n': r.randint(1, 6), 'd': r.randint(1, 4), 'K': r.randint(1, 4),
               'bias': r.random() < .6, 'cube': r.random() < .3, 'fact': r.random() < .4, 'pen': r.random() < .4}


def check(case):
    rs = np.random.RandomState(case['seed'])
    globals()['do_' + case['kind']](case, rs)
    return True


def lsig(z):
    return -np.logaddexp(0, -np.asarray(z, dtype=np.longdouble))


def l1mexp(x):
    return np.where(x > -0.6931, np.log(-np.expm1(x)), np.log1p(-np.exp(x)))


def nll(lp, y):
    return float(np.mean([-y_ * l if y_ > 0 else -l1mexp(l) for l, y_ in zip(lp, y)]))


def close(name, a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    req(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), '%s: %s, expected %s', name, a.tolist(), b.tolist())


def margins(case, rs, scale=1.):
    return np.ascontiguousarray(rs.normal(size=(case['n'], case['K'])) * scale * rs.choice([.1, 1, 5]))


def labels(rs, n):
    return rs.randint(0, 2, n).astype(float)


def do_kernels(case, rs):
    import aideme.active_learning.factorization.utils as U
    m, y = margins(case, rs), labels(rs, case['n'])
    m0 = m.copy()
    lp = lsig(m).sum(axis=1)
    got = np.asarray(U.compute_log_probas(m))
    close('log-probabilities', got, lp)
    close('loss', U.compute_loss(m, y), nll(lp, y))
    x = np.array(got)
    close('loss of log-probabilities', U.compute_classification_loss(x, y), nll(lp, y))
    close('log of the logistic function', np.asarray(U.log_sigmoid(m[:, 0].copy())), lsig(m[:, 0]))
    e = np.exp(lp)
    close('coefficients', np.asarray(U.grad_weights(x, y)), np.where(y > 0, -y, e / -np.expm1(lp)), 1e-7)
    req(np.array_equal(m, m0), 'the margins were changed')


def do_extreme(case, rs):
    import aideme.active_learning.factorization.utils as U
    m = np.ascontiguousarray(rs.choice([-600., -40., -1e-9, 0., 1e-9, 30., 40., 300., 600.], size=(case['n'], case['K'])))
    y = labels(rs, case['n'])
    lp = lsig(m).sum(axis=1)
    close('log-probabilities', np.asarray(U.compute_log_probas(m)), lp)
    v = U.compute_loss(m, y)
    req(np.isfinite(v), 'loss %s for margins %s', v, m.tolist())
    close('loss', v, nll(lp, y), 1e-7)


def problem(case, rs, pen=None):
    from aideme.active_learning.factorization.linear import LinearFactorizationLoss
    n, d, K, bias = case['n'], case['d'], case['K'], case['bias']
    cube = case['cube'] and not case['fact']
    X = rs.normal(size=(n, d, K) if cube else (n, d))
    y = labels(rs, n)
    f = [sorted(rs.choice(d, rs.randint(1, d + 1), replace=False).tolist()) for _ in range(K)] if case['fact'] else None
    P = None
    if case['pen'] or pen:
        from aideme.active_learning.factorization.penalty import L2Penalty
        P = L2Penalty(.3)
    o = LinearFactorizationLoss(X, y, add_bias=bias, penalty_term=P, factorization=f)
    if f is None:
        w = rs.normal(size=(K, d + bias))
    else:
        w = rs.normal(size=sum(len(g) + bias for g in f))
    return o, X, y, f, w, P, K, d, bias, cube


def expand(w, f, K, d, bias):
    if f is None:
        return w[:, :d], w[:, d] if bias else None
    M, p = np.zeros((K, d + 1)), 0
    for k, g in enumerate(f):
        for j in g + ([d] if bias else []):
            M[k, j] = w[p]
            p += 1
    return M[:, :d], M[:, d] if bias else None


def ref(X, y, W, b, P):
    m = np.array([[sum((X[i, j, k] if X.ndim == 3 else X[i, j]) * W[k, j] for j in range(W.shape[1])) + (0 if b is None else b[k]) for k in range(len(W))] for i in range(len(X))])
    v = nll(lsig(m).sum(axis=1), y)
    return v + (0 if P is None else .3 * .5 * (W ** 2).sum()), m


def do_loss(case, rs):
    o, X, y, f, w, P, K, d, bias, cube = problem(case, rs)
    W, b = expand(w, f, K, d, bias)
    w0 = w.copy()
    base = ref(X, y, W, b, None)[0]
    close('loss', o.compute_loss(w), base + (0 if P is None else P.loss(W)))
    req(np.array_equal(w, w0), 'the parameters were changed')


def do_grad(case, rs, rows=None):
    o, X, y, f, w, P, K, d, bias, cube = problem(case, rs)
    w0 = w.copy()
    if rows is not None:
        idx = np.asarray(rows(o, len(X)))
    else:
        idx = np.arange(len(X))
    g = np.asarray(o.compute_grad(w))
    req(np.array_equal(w, w0), 'the parameters were changed')
    req(g.shape == w.shape, 'gradient of shape %s for parameters of shape %s', g.shape, w.shape)

    def total(v):
        W, b = expand(v, f, K, d, bias)
        return ref(X[idx], y[idx], W, b, None)[0] + (0 if P is None else P.loss(W))
    h = 1e-5
    for p in np.ndindex(*w.shape):
        a, c = w.copy(), w.copy()
        a[p] += h
        c[p] -= h
        e = (total(a) - total(c)) / (2 * h)
        req(abs(e - g[p]) < 1e-5 * (1 + abs(e)), 'derivative %s by parameter %s, difference quotient %s', g[p], p, e)


def do_batch(case, rs):
    from aideme.active_learning.factorization.linear import LinearFactorizationLoss
    if case['n'] < 2:
        raise Skip
    size = rs.randint(1, case['n'])
    seen = []

    def rows(o, n):
        o.set_batch_size(size)
        real = o.get_next_batch

        def rec():
            r = real()
            seen.append(np.array(r))
            return r
        o.get_next_batch = rec
        # whole passes over the data
        for _ in range(2):
            got = []
            while len(got) < n:
                got += list(real())
            req(sorted(got) == list(range(n)), 'a pass over the data visits %s', got)
        o.get_next_batch = lambda: seen[-1] if seen else rec()
        return o.get_next_batch()
    do_grad(case, rs, rows)
    o, X, y = problem(case, rs)[:3]
    o.set_batch_size(len(X))
    req(o._batch_size is None, 'a batch of all the data')


def do_predict(case, rs):
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import Adam
    n, d, K, bias = case['n'], case['d'], case['K'], case['bias']
    o = LinearFactorizationLearner(Adam(), add_bias=bias)
    W, b = rs.normal(size=(K, d)) * 2, rs.normal(size=K) if bias else None
    o._weights, o._bias = W.copy(), None if b is None else b.copy()
    X = rs.normal(size=(n, d, K) if case['cube'] else (n, d))
    X0 = X.copy()
    _, m = ref(X, labels(rs, n), W, b, None)
    p = np.exp(lsig(m))
    P = np.prod(p, axis=1)
    close('subspace probabilities', o.partial_proba(X), p)
    close('probabilities', o.predict_proba(X), P)
    sure = np.abs(P - .5) > 1e-9
    req(np.array_equal(np.asarray(o.predict(X))[sure], (P > .5)[sure].astype(float)), 'labels %s for probabilities %s', o.predict(X), P)
    sure = np.abs(p - .5) > 1e-9
    req(np.array_equal(np.asarray(o.partial_predict(X))[sure], (p > .5)[sure].astype(float)), 'subspace labels %s for %s', o.partial_predict(X), p)
    req(np.array_equal(X, X0) and np.array_equal(o._weights, W), 'the points or the weights were changed')
    o._weights, o._bias = np.zeros((1, d)), np.zeros(1) if bias else None
    req(not np.any(o.partial_predict(X[:, :, :1] if case['cube'] else X)) and not np.any(o.predict(X[:, :, :1] if case['cube'] else X)),
        'points of probability one half are labeled positive')
    close('probability at margin zero', o.partial_proba(X[:, :, :1] if case['cube'] else X), np.full((n, 1), .5))


def parts_of(case, rs):
    d = case['d']
    p, out = list(rs.permutation(d)), []
    while p:
        k = rs.randint(1, len(p) + 1)
        out.append([int(x) for x in p[:k]])
        p = p[k:]
    return out


def do_part(case, rs):
    from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier, LinearLoss
    parts, n = parts_of(case, rs), case['n']
    w = rs.normal(size=case['d'] + len(parts))
    X, y = rs.normal(size=(n, case['d'])), labels(rs, n)

    def lp(v):
        out, pos = np.zeros(n), 0
        for p in parts:
            out = out + lsig(v[pos] + X[:, p] @ v[pos + 1:pos + 1 + len(p)])
            pos += 1 + len(p)
        return out
    o = FactorizedLinearClassifier([list(p) for p in parts], w.copy())
    L = lp(w)
    close('probabilities', o.predict_proba(X), np.exp(L))
    sure = np.abs(np.exp(L) - .5) > 1e-9
    req(np.array_equal(np.asarray(o.predict(X))[sure], (np.exp(L) > .5)[sure].astype(int)), 'labels %s', o.predict(X))
    l = LinearLoss(X, y, o)
    v, g = l(w.copy())
    close('loss', v, nll(L, y))
    h = 1e-5
    for k in range(len(w)):
        a, c = w.copy(), w.copy()
        a[k] += h
        c[k] -= h
        e = (nll(lp(a), y) - nll(lp(c), y)) / (2 * h)
        req(abs(e - g[k]) < 1e-5 * (1 + abs(e)), 'derivative %s by parameter %d, difference quotient %s', g[k], k, e)


def do_partfit(case, rs):
    from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearLearner, LinearLoss, FactorizedLinearClassifier
    import warnings
    parts, n = parts_of(case, rs), case['n'] + 3
    X, y = rs.normal(size=(n, case['d'])), labels(rs, n)
    w = rs.normal(size=case['d'] + len(parts)) if case['fact'] else None
    w0 = None if w is None else w.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        q, v = FactorizedLinearLearner(maxiter=5).fit_and_loss(X, y, parts, w)
    e = LinearLoss(X, y, FactorizedLinearClassifier(parts, q.weights.copy()))(q.weights.copy())[0]
    close('the reported loss', v, e, 1e-6)
    start = LinearLoss(X, y, FactorizedLinearClassifier(parts, w0))
    req(v <= start(start.x0)[0] + 1e-9, 'the loss %s is worse than at the start', v)
    req(w is None or np.array_equal(w, w0), 'the starting point was changed')


def do_saturated(case, rs):
    """the gradient where the probabilities are close to zero or to one (margins up to 22)"""
    o, X, y, f, w, P, K, d, bias, cube = problem(dict(case, pen=False), rs)
    W, b = expand(w, f, K, d, bias)
    big = np.abs(ref(X, y, W, b, None)[1]).max()
    w = w * (22 / big if big > 0 else 1)
    W, b = expand(w, f, K, d, bias)
    m = np.asarray(ref(X, y, W, b, None)[1], dtype=np.longdouble)
    lp = lsig(m).sum(axis=1)
    c = np.where(y > 0, -1, np.exp(lp) / -np.expm1(lp))[:, None] / (1 + np.exp(m)) / len(X)    # by margin
    exp = np.zeros((K, d + 1))
    for i in range(len(X)):
        for k in range(K):
            exp[k, :d] += c[i, k] * (X[i, :, k] if X.ndim == 3 else X[i])
            exp[k, d] += c[i, k]
    got = np.asarray(o.compute_grad(w))
    want = exp[:, :d + bias] if f is None else np.array([exp[k, j] for k, g in enumerate(f) for j in list(g) + ([d] if bias else [])])
    close('gradient', got, want, 1e-5)
    with np.errstate(all='ignore'):
        g = np.asarray(o.compute_grad(w * 40.))
    req(np.isfinite(g).all(), 'the gradient is not finite at margins up to 880: %s', g.tolist())
