"""Kernel matrices, diagonals and transformers of the real code against the documented functions (C16)."""
import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('random matrices (including repeated and zero rows), every kernel with default and explicit parameters, jitter, clones and '
        'overlapping factorizations; non-trivial: at least two points')


def cases(seed, tier):
    r = rng_of(seed, 16)
    for k in range(4000 if tier == 'thorough' else 400):
        n, m, d = r.randint(1, 5), r.randint(1, 4), r.randint(1, 4)
        val = lambda: r.choice([0, 1, -1, .5, 2, -2.25])
        yield {'X': [[val() for _ in range(d)] for _ in range(n)], 'Y': [[val() for _ in range(d)] for _ in range(m)],
               'kernel': r.choice(['linear', 'rbf', 'gaussian', 'poly', 'POLY', 'Linear']),
               'gamma': r.choice([None, None, 1, 1., .5, 2., 1e-3, 40.]), 'degree': r.choice([None, 1, 2, 3, 5]), 'coef0': r.choice([None, 0, 1, -.5, 2]),
               'jitter': r.choice([0, 1e-3, .5, 2.]), 'fact': [[r.randrange(d) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))]}


def check(case):
    from aideme.active_learning import kernel as KM
    X, Y = np.array(case['X'], dtype=float), np.array(case['Y'], dtype=float)
    X0, Y0 = X.copy(), Y.copy()
    kw = {k: case[k] for k in ('gamma', 'degree', 'coef0') if case[k] is not None}
    K = KM.Kernel.get(case['kernel'], **kw)
    name = case['kernel'].lower()
    fam = {'linear': KM.LinearKernel, 'rbf': KM.GaussianKernel, 'gaussian': KM.GaussianKernel, 'poly': KM.PolynomialKernel}[name]
    req(type(K) is fam, 'Kernel.get(%r) gives %s', case['kernel'], type(K).__name__)

    def doc(a, b, cols=None):
        cols = list(range(len(a))) if cols is None else cols
        a, b = [a[c] for c in cols], [b[c] for c in cols]
        dot = sum(x * y for x, y in zip(a, b))
        g = case['gamma'] if case['gamma'] is not None else 1 / len(a)
        if name == 'linear':
            return dot
        if name in ('rbf', 'gaussian'):
            return np.exp(-g * sum((x - y) ** 2 for x, y in zip(a, b)))
        return (g * dot + (1 if case['coef0'] is None else case['coef0'])) ** (3 if case['degree'] is None else case['degree'])

    def mat(A, B, cols=None):
        return np.array([[doc(a, b, cols) for b in B] for a in A])

    def close(a, b, what):
        req(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9), '%s: %s instead of %s', what, np.array(a).tolist(), np.array(b).tolist())
    close(K(X, Y), mat(X0, Y0), 'matrix of two datasets')
    close(K(X), mat(X0, X0), 'matrix of a dataset')
    close(K.compute(X, X), mat(X0, X0), 'matrix of a dataset with itself')
    close(K(X), K(X).T, 'symmetry')
    close(K.diagonal(X), np.diag(mat(X0, X0)), 'diagonal')
    if case['jitter'] > 0:
        J = KM.IncrementedDiagonalKernel(K, case['jitter'])
        inc = mat(X0, X0) + case['jitter'] * np.eye(len(X0))
        close(J(X), inc, 'incremented matrix')
        close(J(X, X), inc, 'incremented matrix of the same data')
        close(J(X, Y), mat(X0, Y0), 'incremented matrix with other data')
        close(J.diagonal(X), np.diag(inc), 'incremented diagonal')
    req(raises(ValueError, KM.IncrementedDiagonalKernel, K, 0) and raises(ValueError, KM.IncrementedDiagonalKernel, K, -1.), 'jitter not positive accepted')
    for bad in (0, -1., float('nan')):
        req(raises(ValueError, KM.GaussianKernel, bad), 'bandwidth %s accepted', bad)
        req(raises(ValueError, KM.PolynomialKernel, 3, bad), 'polynomial gamma %s accepted', bad)
    for bad in (0, -2, 1.5):
        req(raises((ValueError, TypeError), KM.PolynomialKernel, bad), 'degree %s accepted', bad)
    req(raises(ValueError, KM.Kernel.get, 'cosine'), 'unknown kernel accepted')

    args = dict(kernel=case['kernel'], jitter=case['jitter'], **kw)
    T = KM.KernelTransformer.get(**args)
    F = KM.FactorizedKernelTransform(T, case['fact'])
    jit = case['jitter'] * np.eye(len(X0))
    close(T.fit_transform(X), mat(X0, X0) + jit, 'fit_transform')
    req(T.n_components == len(X), 'number of components')
    T2 = KM.KernelTransformer.get(**args)
    T2.fit(X)
    close(T2.transform(Y), mat(Y0, X0), 'transform of new points')
    C = T2.clone()
    req(C is not T2 and type(C) is type(T2), 'clone of a transformer')
    try:
        G = C.transform(Y)
    except Exception:
        G = None
    old, own = mat(Y0, X0), mat(Y0, Y0)
    req(G is None or old.shape == own.shape and np.allclose(old, own) or np.shape(G) != old.shape or not np.allclose(G, old),
        'the clone of a fitted transformer is already fitted: %s', G)
    C.fit(Y)
    close(C.transform(X), mat(X0, Y0), 'transform of a clone fitted elsewhere')
    close(T2.transform(Y), mat(Y0, X0), 'transform after fitting a clone')
    G = F.fit_transform(X)
    req(G.shape == (len(X), len(X), len(case['fact'])), 'factorized shape %s', G.shape)
    Q = F.transform(Y)
    F2 = KM.FactorizedKernelTransform(T, case['fact'])
    F2.fit(X)
    Q2 = F2.clone().fit_transform(X)
    F3 = F2.clone()
    F3.fit(Y)
    for s, cols in enumerate(case['fact']):
        close(F3.transform(X)[:, :, s], mat(X0, Y0, cols), 'factorized clone fitted elsewhere, part %d' % s)
        close(G[:, :, s], mat(X0, X0, cols) + jit, 'factorized fit_transform of part %d' % s)
        close(Q[:, :, s], mat(Y0, X0, cols), 'factorized transform of part %d' % s)
        close(F2.transform(Y)[:, :, s], mat(Y0, X0, cols), 'factorized transform of part %d after fit' % s)
        close(Q2[:, :, s], G[:, :, s], 'factorized clone')
    N = KM.KernelTransformer.get(nystroem_components=2, **{k: v for k, v in args.items() if k != 'jitter'})
    req(N.n_components == 2 and N.nystroem.kernel == case['kernel'] and N.nystroem.gamma == case['gamma'], 'approximation: parameters')
    for k in ('degree', 'coef0'):
        if case[k] is not None:
            req(getattr(N.nystroem, k) == case[k] and getattr(N.clone().nystroem, k) == case[k], 'approximation: %s', k)
    req(N.clone().nystroem is not N.nystroem and N.clone().n_components == 2, 'approximation: clone')
    req(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'data modified')
    return len(X) > 1
