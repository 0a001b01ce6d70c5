"""Replacements of the builtins the verified modules call (they accept symbolic values, and are the builtins otherwise)."""
import builtins
import math

import z3

from .core import Ctx, SymBool, SymNum, And, Forall, Implies, Int, Not, Or, as_term, ite, num_term, to_real, wrap
from .arrays import Arr, dterm, dim_wrap, toarr
from .collections_ import (GenExp, SymDict, SymDictItems, SymEnum, SymList, SymMap, SymRange, SymSet, SymZip, as_seq,
                           is_symbolic_seq, scalar)
from . import reduce as red


def pv_len(x):
    f = getattr(x, '__pvlen__', None)
    if f is not None:
        return f()
    cls = type(x)
    if cls.__module__.startswith('aideme') and hasattr(cls, '__len__'):
        return cls.__len__(x)
    return builtins.len(x)


def pv_range(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if builtins.len(a) == 1:
        return SymRange(0, a[0])
    if builtins.len(a) == 2:
        return SymRange(a[0], a[1])
    Ctx.cur.unsupported('range with a symbolic step')


_INT_LIKE, _FLOAT_LIKE = [int], [float]


def pv_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if isinstance(k, tuple):
            if pv_isinstance(x, k):
                return True
            continue
        if isinstance(x, SymNum) and (k is int or k is float or k is pv_int or k is pv_float):
            want_int = k is int or k is pv_int
            if x.is_int == want_int:
                return True
            continue
        if isinstance(x, SymBool) and k in (bool, pv_bool, int, pv_int):
            return True
        if k is pv_int:
            k = int
        elif k is pv_float:
            k = float
        elif k is pv_bool:
            k = bool
        elif k is pv_list:
            k = (list, SymList)
        elif k is pv_set:
            k = (set, SymSet)
        elif k is pv_tuple:
            k = tuple
        elif k is list:
            k = (list, SymList)
        elif k is set:
            k = (set, SymSet)
        elif k is dict:
            k = (dict, SymDict)
        try:
            if isinstance(x, k):
                return True
        except TypeError:
            pass
    return False


class _TypeLike(type):
    """lets `int`, `float`, ... be used both as functions and as types in the verified modules"""

    def __instancecheck__(cls, x):
        return pv_isinstance(x, cls.__pvtype__)


def _num1(x):
    if isinstance(x, Arr):
        if builtins.all(isinstance(d, int) and d == 1 for d in x.shape):
            return x.item()
        if builtins.all(isinstance(d, int) for d in x.shape):
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        for d in x.shape:
            if not Ctx.cur.branch(dterm(d) == 1):
                raise TypeError('only length-1 arrays can be converted to Python scalars')
        return x.item()
    return x


class pv_int(metaclass=_TypeLike):
    __pvtype__ = int
    __pvname__ = 'int'

    def __new__(cls, x=0, *a):
        x = _num1(x)
        if isinstance(x, SymNum):
            if x.is_int:
                return x
            t = x.t
            return wrap(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))
        if isinstance(x, SymBool):
            return x._num()
        if getattr(x, '__pvint__', None):
            return x.__pvint__()
        return int(x, *a)


class pv_float(metaclass=_TypeLike):
    __pvtype__ = float
    __pvname__ = 'float'

    def __new__(cls, x=0.0):
        x = _num1(x)
        if isinstance(x, (SymNum, SymBool)):
            return wrap(to_real(x.t))
        return float(x)


class pv_bool(metaclass=_TypeLike):
    __pvtype__ = bool
    __pvname__ = 'bool'

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return wrap(x.t != 0)
        return bool(x)


class pv_list(metaclass=_TypeLike):
    __pvtype__ = list

    def __new__(cls, x=()):
        if isinstance(x, SymList):
            return x.copy()
        if isinstance(x, SymSet):
            return x.tolist()
        if is_symbolic_seq(x):
            n, e = as_seq(x)
            return SymList.of(n, e)
        return SymList(x)


class pv_set(metaclass=_TypeLike):
    __pvtype__ = set

    def __new__(cls, x=()):
        if isinstance(x, SymSet):
            return x.copy()
        if isinstance(x, SymList) and getattr(x, 'pv_toset', None) is not None:
            return x.pv_toset()
        if is_symbolic_seq(x):
            return SymSet.from_seq(x)
        items = builtins.list(x)
        if builtins.all(not isinstance(i, (SymNum, SymBool, Arr, int)) for i in items) and items:
            return set(items)
        return SymSet.from_seq(items)


class pv_tuple(metaclass=_TypeLike):
    __pvtype__ = tuple

    def __new__(cls, x=()):
        if is_symbolic_seq(x):
            n, e = as_seq(x)
            return SymList.of(n, e)
        return tuple(x)


def pv_enumerate(x, start=0):
    return SymEnum(x, start) if is_symbolic_seq(x) else builtins.enumerate(x, start)


def pv_zip(*xs):
    return SymZip(xs) if builtins.any(is_symbolic_seq(x) for x in xs) else builtins.zip(*xs)


def pv_map(f, *xs):
    if builtins.len(xs) == 1 and is_symbolic_seq(xs[0]):
        return GenExp(xs[0], f, [])
    return builtins.map(f, *xs)


def _fold(name, xs):
    xs = [x for x in xs]
    r = xs[0]
    for x in xs[1:]:
        if builtins.all(not isinstance(v, (SymNum, SymBool)) for v in (r, x)):
            r = (builtins.min if name == 'min' else builtins.max)(r, x)
            continue
        c = (x < r) if name == 'min' else (x > r)
        if isinstance(c, bool):
            r = x if c else r
        else:
            r = ite(c, x, r)
    return r


def _minmax(name):
    def f(*xs, default=None, key=None):
        if builtins.len(xs) == 1:
            s = xs[0]
            if is_symbolic_seq(s):
                if key is not None:
                    Ctx.cur.unsupported('min/max with a key')
                n, e = as_seq(s)
                if default is not None and not Ctx.cur.branch(dterm(n) > 0):
                    return default
                red.require_nonempty(n)
                probe = as_term(e(z3.Const('probe', Int)))
                from .arrays import kind_of_term
                return wrap(red.reduce1(name, lambda j: as_term(e(j)), n, kind_of_term(probe)))
            xs = builtins.list(s)
            if not xs and default is not None:
                return default
        if key is not None:
            return (builtins.min if name == 'min' else builtins.max)(xs, key=key)
        if not xs:
            raise ValueError('%s() arg is an empty sequence' % name)
        return _fold(name, xs)
    return f


pv_min, pv_max = _minmax('min'), _minmax('max')


def pv_sum(x, start=0):
    if is_symbolic_seq(x):
        n, e = as_seq(x)
        from .arrays import kind_of_term
        k = kind_of_term(as_term(e(z3.Const('probe', Int))))
        return start + wrap(red.reduce1('sum', lambda j: as_term(e(j)), n, k))
    r = start
    for v in x:
        r = r + v
    return r


def _quant(name):
    def f(x):
        if isinstance(x, Arr) and x.ndim == 1 or is_symbolic_seq(x):
            if isinstance(x, GenExp):
                return anyall_gen(name, x)
            n, e = as_seq(x)
            if not isinstance(n, int):
                return wrap(red.reduce1(name, lambda j: truth(e(j)), n, 'bool'))
            x = [e(z3.IntVal(i)) for i in range(n)]
        return (builtins.any if name == 'any' else builtins.all)(x)
    return f


def truth(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, SymNum):
        return v.t != 0
    return z3.BoolVal(bool(v))


def anyall_gen(name, g):
    """any/all over a lazy generator: evaluation stops at the first decisive element, so later elements may not raise"""
    from .loops import pred_fn
    c = Ctx.cur
    n, e = as_seq(g.seq)
    if isinstance(n, int):
        for i in range(n):
            x = e(z3.IntVal(i))
            if builtins.all(bool(k(x)) for k in g.conds):
                if bool(g.elt(x)) == (name == 'any'):
                    return name == 'any'
        return name == 'all'
    if g.conds:
        want = (lambda x: wrap(truth(g.elt(x)))) if name == 'any' else (lambda x: wrap(z3.Not(truth(g.elt(x)))))
        p = pred_fn(n, e, builtins.list(g.conds) + [want])
        r = red.reduce1('any', p, n, 'bool')
        return wrap(r if name == 'any' else z3.simplify(z3.Not(r)))
    p = pred_fn(n, e, [lambda x: wrap(truth(g.elt(x)))])
    return wrap(red.reduce1(name, p, n, 'bool'))


pv_any, pv_all = _quant('any'), _quant('all')


def pv_abs(x):
    return x.__abs__() if isinstance(x, (SymNum, Arr)) else builtins.abs(x)


def native(v):
    """the plain Python value of a list without symbolic parts (None: there are some)"""
    if isinstance(v, SymList):
        if v.items is None:
            return None
        v = v.items
    if isinstance(v, (builtins.list, tuple)):
        out = [native(x) for x in v]
        return None if builtins.any(x is None for x in out) else tuple(out) if isinstance(v, tuple) else out
    return v if isinstance(v, (bool, int, float, str)) else None


def pv_sorted(x, key=None, reverse=False):
    f = getattr(x, 'pv_sorted', None)
    if f is not None and key is None and not reverse:
        return f()
    if key is None and isinstance(x, (SymList, builtins.list, tuple)):
        q = native(x)
        if q is not None:
            def wrapl(v):
                return SymList([wrapl(y) for y in v]) if isinstance(v, builtins.list) else v
            return wrapl(builtins.sorted(q, reverse=reverse))
    if key is None and is_symbolic_seq(x):
        from .npstub import np_sort
        a = toarr(pv_list(x))
        return a.__class__.tolist(np_sort(a))
    if isinstance(x, SymList) or any(isinstance(v, (SymNum, SymList)) for v in builtins.list(x)):
        items = builtins.list(x)
        if builtins.len(items) <= 1:
            return SymList(items)
        Ctx.cur.unsupported('sorting symbolic values')
    return builtins.sorted(x, key=key, reverse=reverse)


def pv_callable(x):
    f = getattr(x, '__pvcallable__', None)
    return f if f is not None else builtins.callable(x)


def pv_print(*a, **k):
    pass


def table():
    return {
        'len': pv_len, 'range': pv_range, 'isinstance': pv_isinstance, 'int': pv_int, 'float': pv_float, 'bool': pv_bool,
        'list': pv_list, 'set': pv_set, 'tuple': pv_tuple, 'enumerate': pv_enumerate, 'zip': pv_zip, 'map': pv_map,
        'min': pv_min, 'max': pv_max, 'sum': pv_sum, 'any': pv_any, 'all': pv_all, 'abs': pv_abs, 'sorted': pv_sorted,
        'callable': pv_callable, 'print': pv_print,
    }
