"""Laplace learners of the real code against the documented posterior (C29)."""
import sys
import types

import numpy as np

from harness.base import Skip, req, rng_of, raises

# pystan is not installed here: an empty module stands in so that the package can be imported
if 'pystan' not in sys.modules:
    sys.modules['pystan'] = types.ModuleType('pystan')
    sys.modules['pystan'].StanModel = object

RULE = ('random data, both priors, with and without intercept, linear and kernel version; objective and gradient at random weights '
        '(finite differences), Hessian factor, predictive probability; non-trivial: at least two points')


def cases(seed, tier):
    r = rng_of(seed, 29)
    for k in range(2000 if tier == 'thorough' else 250):
        n, m, d = r.randint(1, 6), r.randint(1, 4), r.randint(1, 3)
        val = lambda: r.choice([0, 1, -1, .5, 2, -2.25, .75, .3])
        yield {'X': [[val() for _ in range(d)] for _ in range(n)], 'Q': [[val() for _ in range(d)] for _ in range(m)],
               'y': [r.choice([1, 1, 0, -1]) for _ in range(n)], 'bias': r.random() < .5, 'std': r.choice([.5, 1., 3.]),
               'max_iter': r.choice([None, None, None, 0, 1, 2]),
               'prior': r.choice(['gaussian', 'gaussian', 'improper']), 'kernel': r.random() < .4, 'w': [val() for _ in range(max(n, d) + 1)]}


def check(case):
    from aideme.active_learning.version_space.bayesian import laplace as M
    from scipy.stats import norm
    X, Q, y = np.array(case['X'], dtype=float), np.array(case['Q'], dtype=float), np.array(case['y'], dtype=float)
    sd = case['std']
    kern = case['kernel']
    rbf = lambda A, B: np.exp(-.5 * ((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))
    for bad in (0, -1., float('nan')):
        req(raises(ValueError, M.LaplaceBayesianLogisticRegression, 'gaussian', bad), 'prior deviation %s accepted', bad)
        req(raises(ValueError, M.LaplaceBayesianLogisticRegression, 'gaussian', 1., False, bad), 'tolerance %s accepted', bad)
    req(raises(ValueError, M.LaplaceBayesianLogisticRegression, 'cauchy'), 'unknown prior accepted')
    if kern:
        o = M.KernelLaplaceBayesianLogisticRegression(sd)
        info = 1 / sd ** 2
        A, B = rbf(X, X), rbf(Q, X)
    else:
        o = M.LaplaceBayesianLogisticRegression(case['prior'], sd, case['bias'])
        info = 1 / sd ** 2 if case['prior'] == 'gaussian' else 0.
        one = lambda Z: np.hstack([np.ones((len(Z), 1)), Z]) if case['bias'] else Z
        A, B = one(X), one(Q)
    req(abs(getattr(o, '_info', info) - info) < 1e-12, 'prior weight %s', getattr(o, '_info', info))
    y0 = y.copy()
    A0, B0 = A.copy(), B.copy()
    sg = np.where(y == 1, -1., 1.)
    if not hasattr(M, 'minimize'):
        raise Skip()
    if case['max_iter'] is not None:       # an optimiser that runs out of iterations
        if 'maxiter' not in getattr(o, '_opt_options', {}):
            raise Skip()
        o._opt_options = dict(o._opt_options, maxiter=case['max_iter'])
    got = []
    real = M.minimize

    def spy(fun, w0, *a, **k):
        w = np.array((case['w'] * 3)[:len(w0)], dtype=float)
        L, g = fun(w, *k['args'])
        nll = lambda w: np.logaddexp(0, sg * (A0 @ w)).sum() + .5 * info * ((w @ A0 @ w) if kern else w @ w)
        req(len(w0) == A0.shape[1], 'number of weights %s', len(w0))
        req(abs(L - nll(w)) <= 1e-8 * (1 + abs(L)), 'objective %s instead of %s', L, nll(w))
        h = 1e-6
        num = np.array([(nll(w + h * e) - nll(w - h * e)) / (2 * h) for e in np.eye(len(w))])
        req(np.allclose(g, num, atol=1e-4, rtol=1e-4), 'gradient %s instead of %s', np.array(g).tolist(), num.tolist())
        req(k.get('jac') is True, 'gradient not announced')
        res = real(fun, w0, *a, **k)
        got.append(res)
        return res
    M.minimize = spy
    try:
        o.fit(A.copy() if kern else X.copy(), y)
    except RuntimeError:
        req(got and not got[0].success, 'error although the optimisation succeeded')
        return False
    except np.linalg.LinAlgError:
        return False
    finally:
        M.minimize = real
    req(np.array_equal(y, y0), 'labels modified')
    req(got[0].success, 'failed optimisation accepted')
    w = got[0].x
    req(np.array_equal(getattr(o, '_mean', w), w), 'weights')
    P = 1 / (1 + np.exp(-(A0 @ w)))
    P = P * (1 - P)
    if kern:
        sq = np.sqrt(P)
        H = A0 * np.outer(sq, sq) + info * np.eye(len(w))
        var = (1 - (np.linalg.solve(np.linalg.cholesky(H), (B0 * sq).T) ** 2).sum(axis=0)) / info
    else:
        H = A0.T @ (A0 * P[:, None]) + max(1e-12, info) * np.eye(len(w))
        if np.linalg.cond(H) > 1e9:
            return False
        var = (np.linalg.solve(np.linalg.cholesky(H), B0.T) ** 2).sum(axis=0)
    p0 = norm.cdf(B0 @ w / np.sqrt(var + 8 / np.pi))
    p = o.predict_proba(B.copy() if kern else Q.copy())
    req(p.shape == (len(Q),) and np.allclose(p, p0, atol=1e-6), 'probability %s instead of %s', p.tolist(), p0.tolist())
    r = o.predict(B.copy() if kern else Q.copy())
    ok = np.abs(p0 - .5) > 1e-9
    req(np.array_equal(r[ok], (p0 > .5)[ok].astype(float)), 'answers %s for %s', r.tolist(), p0.tolist())
    return len(X) > 1
