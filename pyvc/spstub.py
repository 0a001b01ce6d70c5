"""Assumed contracts of scipy / scikit-learn / libm functions used by the repository, and inert placeholders."""
import math
import sys
import types

import z3

from .core import Ctx, SymNum, SymBool, And, Forall, Implies, Int, Real, as_term, num_term, to_real, wrap, If
from .arrays import Arr, dim_eq, dterm, elementwise, toarr, cast
from .collections_ import scalar
from . import funcs, npstub as N, reduce as red


class Opaque:
    """a dependency the contracts do not model: any use leaves the verified fragment"""

    def __init__(self, *a, **k):
        if Ctx.cur is not None and Ctx.cur.unit is not None:
            Ctx.cur.unsupported('use of an unmodelled dependency')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        Ctx.cur.unsupported('use of an unmodelled dependency')


def _unmodelled(name):
    def f(*a, **k):
        Ctx.cur.unsupported('call of %s (no contract)' % name)
    f.__name__ = name
    return f


def check_X_y(X, y, ensure_min_samples=1, ensure_min_features=1, **kw):
    X, y = N.asarray(X), N.asarray(y)
    if X.ndim != 2:
        raise ValueError('Expected 2D array')
    if y.ndim == 2:
        y = column_or_1d(y)
    if y.ndim != 1:
        raise ValueError('y should be a 1d array')
    if not dim_eq(X.shape[0], y.shape[0]):
        raise ValueError('Found input variables with inconsistent numbers of samples')
    if ensure_min_samples > 0 and not Ctx.cur.branch(dterm(X.shape[0]) >= ensure_min_samples):
        raise ValueError('Found array with too few samples')
    if ensure_min_features > 0 and not Ctx.cur.branch(dterm(X.shape[1]) >= ensure_min_features):
        raise ValueError('Found array with 0 feature(s)')
    return X, y


def check_array(X, ensure_min_samples=1, ensure_min_features=1, **kw):
    X = N.asarray(X)
    if X.ndim != 2:
        raise ValueError('Expected 2D array')
    if ensure_min_samples > 0 and not Ctx.cur.branch(dterm(X.shape[0]) >= ensure_min_samples):
        raise ValueError('Found array with too few samples')
    return X


def column_or_1d(y, **kw):
    y = N.asarray(y)
    if y.ndim == 1:
        return y
    if y.ndim == 2:
        if not (isinstance(y.shape[1], int) and y.shape[1] == 1) and not Ctx.cur.branch(dterm(y.shape[1]) == 1):
            raise ValueError('y should be a 1d array')
        return y[:, 0]
    raise ValueError('y should be a 1d array')


def confusion_matrix(y_true, y_pred, labels=None, **kw):
    """counts of pairs; only labels=[0, 1]"""
    y_true, y_pred = N.asarray(y_true), N.asarray(y_pred)
    labels = list(labels) if labels is not None else None
    if labels != [0, 1]:
        Ctx.cur.unsupported('confusion matrix of other labels')
    if not dim_eq(y_true.shape[0], y_pred.shape[0]):
        raise ValueError('Found input variables with inconsistent numbers of samples')
    rows = []
    for a in (0, 1):
        row = []
        for b in (0, 1):
            m = N.logical_and(y_true == a, y_pred == b)
            row.append(m.sum())
        rows.append(N.asarray(row))
    return N.asarray(rows)


expit = N._ufunc1(lambda t: funcs.expit(t), 'real')
xlogy = N._ufunc2(lambda a, b: If(to_real(a) == 0, z3.RealVal(0), to_real(a) * funcs.log(b)), 'real')


def check_is_fitted(*a, **k):
    return None


def clone(est, safe=True):
    f = getattr(est, '__pvclone__', None)
    if f is not None:
        return f()
    Ctx.cur.unsupported('clone of %s' % type(est).__name__)


class OptimizeResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)
    __setattr__ = dict.__setitem__
    __delattr__ = dict.__delitem__


def _mod(name, **d):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(d)
    return m


class _Math(types.ModuleType):
    pass


def math_module():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})

    def ceil(x):
        if isinstance(x, SymNum):
            return x if x.is_int else wrap(-z3.ToInt(-x.t))
        return math.ceil(x)

    def floor(x):
        if isinstance(x, SymNum):
            return x if x.is_int else wrap(z3.ToInt(x.t))
        return math.floor(x)
    m.ceil, m.floor = ceil, floor
    m.isinf = lambda x: False if isinstance(x, (SymNum, SymBool)) else math.isinf(x)
    m.isnan = lambda x: False if isinstance(x, (SymNum, SymBool)) else math.isnan(x)
    for k in ('sqrt', 'exp', 'log', 'log1p'):
        def g(x, k=k):
            return getattr(N, k)(x) if isinstance(x, (SymNum, SymBool)) else getattr(math, k)(x)
        setattr(m, k, g)
    return m


def modules():
    np_, la, rn = N.module()
    mods = {'numpy': np_, 'numpy.linalg': la, 'numpy.random': rn}
    sp = _mod('scipy')
    special = _mod('scipy.special', expit=expit, xlogy=xlogy, gamma=_unmodelled('gamma'))
    optimize = _mod('scipy.optimize', OptimizeResult=OptimizeResult, minimize=_unmodelled('minimize'),
                    minimize_scalar=_unmodelled('minimize_scalar'), linprog=_unmodelled('linprog'))
    linalg = _mod('scipy.linalg', cholesky=_unmodelled('cholesky'), solve_triangular=_unmodelled('solve_triangular'),
                  eigh=_unmodelled('eigh'))
    spatial = _mod('scipy.spatial', ConvexHull=_unmodelled('ConvexHull'))
    spatial.qhull = _mod('scipy.spatial.qhull', QhullError=type('QhullError', (RuntimeError,), {}))
    spatial.QhullError = spatial.qhull.QhullError
    stats = _mod('scipy.stats', norm=Opaque.__new__(Opaque))
    for n, m in (('special', special), ('optimize', optimize), ('linalg', linalg), ('spatial', spatial), ('stats', stats)):
        setattr(sp, n, m)
        mods['scipy.' + n] = m
    mods['scipy'] = sp
    mods['scipy.spatial.qhull'] = spatial.qhull
    sk = _mod('sklearn', clone=clone)
    utils = _mod('sklearn.utils', check_X_y=check_X_y, column_or_1d=column_or_1d, check_array=check_array)
    utils.validation = _mod('sklearn.utils.validation', check_is_fitted=check_is_fitted)
    base = _mod('sklearn.base', clone=clone)
    metrics = _mod('sklearn.metrics', confusion_matrix=confusion_matrix, f1_score=_unmodelled('f1_score'))
    metrics.pairwise = _mod('sklearn.metrics.pairwise', linear_kernel=linear_kernel, rbf_kernel=rbf_kernel,
                            polynomial_kernel=polynomial_kernel)
    svm = _mod('sklearn.svm', SVC=Opaque)
    lm = _mod('sklearn.linear_model', LogisticRegression=Opaque)
    ka = _mod('sklearn.kernel_approximation', Nystroem=Opaque)
    for n, m in (('utils', utils), ('base', base), ('metrics', metrics), ('svm', svm), ('linear_model', lm),
                 ('kernel_approximation', ka)):
        setattr(sk, n, m)
        mods['sklearn.' + n] = m
    mods['sklearn.utils.validation'] = utils.validation
    mods['sklearn.metrics.pairwise'] = metrics.pairwise
    mods['sklearn'] = sk
    mods['pystan'] = _mod('pystan', StanModel=Opaque)
    mods['pvmath'] = _mod('pvmath', exp=N.exp, log=N.log, log1p=N.log1p,
                          expm1=N._ufunc1(lambda t: funcs.expm1(t), 'real'))
    mods['math'] = math_module()
    return mods


def linear_kernel(X, Y=None):
    X = N.asarray(X)
    Y = X if Y is None else N.asarray(Y)
    return red.dot(X, Y.T)


def polynomial_kernel(X, Y=None, degree=3, gamma=None, coef0=1):
    X = N.asarray(X)
    Y = X if Y is None else N.asarray(Y)
    g = 1.0 / X.shape[1] if gamma is None else gamma
    return (red.dot(X, Y.T) * g + coef0) ** degree


def rbf_kernel(X, Y=None, gamma=None):
    X = N.asarray(X)
    Y = X if Y is None else N.asarray(Y)
    g = 1.0 / X.shape[1] if gamma is None else gamma
    rx, ry = X.reader(), Y.reader()
    if not dim_eq(X.shape[1], Y.shape[1]):
        raise ValueError('Incompatible dimension')
    gt = to_real(num_term(g))

    def entry(i, j):
        s = red.reduce1('sum', lambda k: (to_real(rx(i, k)) - to_real(ry(j, k))) * (to_real(rx(i, k)) - to_real(ry(j, k))),
                        X.shape[1], 'real')
        return funcs.exp(-gt * s)
    return red._rows([X.shape[0], Y.shape[0]], entry)
