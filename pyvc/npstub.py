"""The numpy surface the repository uses, over symbolic arrays.  Every function here is an assumed contract of numpy
(floats are reals, no NaN/inf inside arrays, random draws are arbitrary values within the documented range)."""
import math
import types

import z3

from .core import (Ctx, SymBool, SymNum, And, Forall, If, Implies, Int, Not, Or, Real, Bool, as_term, ite, num_term,
                   to_int, to_real, wrap)
from .arrays import (Arr, Buf, Carried, DType, bcast_reader, bcast_shapes, cast, dim_eq, dim_same, dim_wrap, dterm, elementwise,
                     from_list, join_kind, kind_of_dtype, kind_of_term, mask_select, reshape, toarr)
from .collections_ import GenExp, SymList, SymMap, SymRange, SymSet, as_seq, is_symbolic_seq, scalar
from . import funcs, reduce as red


def _shape(s):
    if isinstance(s, SymList):
        s = s.items
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def _num(x):
    """concrete literal fit for a shape"""
    return x


def full(shape, fill_value, dtype=None):
    if isinstance(fill_value, float) and (math.isinf(fill_value) or math.isnan(fill_value)):
        Ctx.cur.unsupported('array of non-finite values')
    t = as_term(fill_value)
    k = kind_of_dtype(dtype) if dtype is not None else kind_of_term(t)
    t = cast(t, k)
    shp = _shape(shape)
    for d in shp:
        if isinstance(d, SymNum):
            if not d.is_int:
                raise TypeError('shape must be integer')
            if not Ctx.cur.branch(d.t >= 0):
                raise ValueError('negative dimensions are not allowed')
        elif d < 0:
            raise ValueError('negative dimensions are not allowed')
    return Arr.make(shp, k, lambda *ix: t)


def zeros(shape, dtype=None):
    return full(shape, 0.0 if dtype is None else 0, dtype)


def ones(shape, dtype=None):
    return full(shape, 1.0 if dtype is None else 1, dtype)


def empty(shape, dtype=None):
    return Arr.fresh('empty', _shape(shape), 'real' if dtype is None else kind_of_dtype(dtype))


def zeros_like(a, dtype=None):
    a = toarr(a)
    return full(a.shape, 0, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = toarr(a)
    return full(a.shape, 1, dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = toarr(a)
    return full(a.shape, v, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = toarr(a)
    return Arr.fresh('empty', a.shape, kind_of_dtype(dtype or a.dtype))


def arange(*a, dtype=None):
    if dtype is not None:
        r = arange(*a)
        k = 'int' if 'int' in str(dtype) else 'real' if 'float' in str(dtype) else None
        if k is None:
            Ctx.cur.unsupported('arange of type %s' % dtype)
        rd = r.reader()
        return Arr.make(r.shape, k, lambda i: cast(rd(i), k))
    if len(a) == 1:
        n = a[0]
        return Arr.make((SymRange(0, n).n if isinstance(n, SymNum) else max(n, 0),), 'int', lambda i: i)
    r = SymRange(a[0], a[1]) if any(isinstance(x, SymNum) for x in a) else None
    if r is None:
        return from_list(list(range(*a)))
    t = num_term(a[0])
    return Arr.make((r.n,), 'int', lambda i: t + i)


def _native(x):
    if isinstance(x, GenExp):
        x = x.force()
    if isinstance(x, (list, tuple)) and any(isinstance(v, (list, tuple, SymList)) for v in x):
        return [_native(v) if not scalar(v) else v for v in x]
    return x


def _nested(x):
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, (list, tuple)) for v in x):
        return from_list([_nested(v) for v in x])
    return toarr(x)


def asarray(x, dtype=None, order=None):
    if isinstance(x, Carried) and dtype is None:
        return x
    if isinstance(x, Arr):
        if dtype is None or kind_of_dtype(dtype) == x.kind:
            return x
        return x.astype(dtype)
    if is_symbolic_seq(x) and not isinstance(x, SymList):
        n, e = as_seq(x)
        x = SymList.of(n, e)
    r = _nested(_native(x))
    return r if dtype is None else r.astype(dtype)


def array(x, dtype=None, copy=True, order=None, ndmin=0):
    r = asarray(x, dtype)
    return r.copy() if r is x else r


def ravel(x):
    return asarray(x).reshape(-1) if asarray(x).ndim != 1 else asarray(x)


def atleast_1d(x):
    x = asarray(x)
    return x if x.ndim >= 1 else x.reshape(1)


def atleast_2d(x):
    x = asarray(x)
    if x.ndim >= 2:
        return x
    if x.ndim == 0:
        t = x.at()
        return Arr.make((1, 1), x.kind, lambda i, j: t)
    return x[None, :]


def _parts(tup):
    """native list of arrays, or (n, elem) for a symbolic list"""
    if isinstance(tup, GenExp):
        tup = tup.force()
    if isinstance(tup, SymList):
        if tup.items is None:
            return None, tup
        tup = tup.items
    if isinstance(tup, Arr):
        if isinstance(tup.shape[0], int):
            return [tup[i] for i in range(tup.shape[0])], None
        return None, tup
    return [asarray(x) for x in tup], None


def concatenate(tup, axis=0):
    parts, sym = _parts(tup)
    if parts is None:
        Ctx.cur.unsupported('concatenation of symbolically many arrays')
    if not parts:
        raise ValueError('need at least one array to concatenate')
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts) or nd == 0:
        raise ValueError('all the input array dimensions must match')
    if axis < 0:
        axis += nd
    for p in parts[1:]:
        for k in range(nd):
            if k != axis and not dim_eq(p.shape[k], parts[0].shape[k]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    kind = parts[0].kind
    for p in parts[1:]:
        if not (isinstance(p.shape[axis], int) and p.shape[axis] == 0):
            kind = join_kind(kind, p.kind) if not (isinstance(parts[0].shape[axis], int) and parts[0].shape[axis] == 0) \
                else join_kind(kind, p.kind)
    offs, tot = [], 0
    for p in parts:
        offs.append(tot)
        tot = tot + p.shape[axis]
    if isinstance(tot, SymNum):
        tot = dim_wrap(tot.t)
    rds = [p.reader() for p in parts]
    shape = list(parts[0].shape)
    shape[axis] = tot

    def fn(*ix):
        j = ix[axis]
        r = None
        for rd, off in reversed(list(zip(rds, offs))):
            o = dterm(off)
            jx = list(ix)
            jx[axis] = z3.simplify(j - o)
            v = cast(rd(*jx), kind)
            if r is None:
                r = v
            else:
                r = z3.If(j < dterm(nxt), v, r)
            nxt = off
        return r
    return Arr.make(shape, kind, fn)


def hstack(tup):
    parts, sym = _parts(tup)
    if parts is None:
        if isinstance(sym, SymList):
            return sym.toarr()
        return sym
    parts = [atleast_1d(p) for p in parts]
    return concatenate(parts, 0 if parts and parts[0].ndim == 1 else 1)


def vstack(tup):
    parts, sym = _parts(tup)
    if parts is None:
        a = sym.toarr() if isinstance(sym, SymList) else sym
        if a.ndim == 1:
            return a.reshape(-1, 1)
        return a
    return concatenate([atleast_2d(p) for p in parts], 0)


def stack(tup, axis=0):
    parts, sym = _parts(tup)
    if parts is None:
        Ctx.cur.unsupported('stacking of symbolically many arrays')
    if not parts:
        raise ValueError('need at least one array to stack')
    nd = parts[0].ndim
    for p in parts[1:]:
        if p.ndim != nd or not all(dim_eq(x, y) for x, y in zip(p.shape, parts[0].shape)):
            raise ValueError('all input arrays must have the same shape')
    ax = axis if axis >= 0 else axis + nd + 1
    kind = parts[0].kind
    for p in parts[1:]:
        kind = join_kind(kind, p.kind)
    rds = [p.reader() for p in parts]

    def fn(*ix):
        rest = [t for k, t in enumerate(ix) if k != ax]
        r = cast(rds[-1](*rest), kind)
        for j in reversed(range(len(rds) - 1)):
            r = z3.If(ix[ax] == j, cast(rds[j](*rest), kind), r)
        return r
    shape = list(parts[0].shape)
    shape.insert(ax, len(parts))
    return Arr.make(tuple(shape), kind, fn)


def dstack(tup):
    parts, sym = _parts(tup)
    if parts is None or any(p.ndim != 2 for p in parts):
        Ctx.cur.unsupported('dstack')
    return stack(parts, 2)


def column_stack(tup):
    parts, sym = _parts(tup)
    if parts is None:
        Ctx.cur.unsupported('column_stack of symbolically many arrays')
    return concatenate([p.reshape(-1, 1) if p.ndim == 1 else p for p in parts], 1)


class _R:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return concatenate([atleast_1d(x) for x in key], 0)


class _C:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for x in key:
            x = atleast_1d(x)
            parts.append(x.reshape(-1, 1) if x.ndim == 1 else x)
        return concatenate(parts, 1)


def where(c, *ab):
    if not ab:
        c = asarray(c)
        if c.ndim != 1:
            Ctx.cur.unsupported('np.where on a matrix')
        if c.kind != 'bool':
            c = c != 0
        if isinstance(c.shape[0], int) and c.shape[0] <= 4:
            pos = [i for i in range(c.shape[0]) if bool(wrap(z3.simplify(c.at(z3.IntVal(i)))))]
            return (from_list(pos) if pos else Arr.make((0,), 'int', lambda i: z3.IntVal(0)),)
        sel, cnt = mask_select(c)
        r = Arr.make((cnt,), 'int', sel)
        r.nonneg = True
        return (r,)
    a, b = ab
    if any(isinstance(x, float) and math.isinf(x) for x in ab):
        Ctx.cur.unsupported('np.where with an infinite branch')
    arrs = [toarr(x) for x in (c, a, b)]
    kind = join_kind(arrs[1].kind, arrs[2].kind)

    def f(x, y, z):
        return z3.If(x if z3.is_bool(x) else x != 0, cast(y, kind), cast(z, kind))
    shape = bcast_shapes([x.shape for x in arrs])
    rds = [bcast_reader(x, shape) for x in arrs]
    fn = lambda *ix: f(*[r(*ix) for r in rds])
    return Arr.make(shape, kind, fn) if shape else wrap(z3.simplify(fn()))


def nonzero(c):
    return where(c)


def flatnonzero(c):
    return where(ravel(c))[0]


def _ufunc1(f, kind):
    def g(x, out=None, where=None, dtype=None):
        if where is not None and where is not True:
            Ctx.cur.unsupported('ufunc with where')
        if scalar(x):
            r = wrap(z3.simplify(cast(f(num_term(x)), kind) if kind else f(num_term(x))))
        elif isinstance(x, float):
            return _float1(f, x)
        else:
            r = elementwise(f, [asarray(x)], kind or 'num')
        if out is not None:
            out[tuple([slice(None)] * out.ndim)] = r
            return out
        return r
    return g


def _float1(f, x):
    Ctx.cur.unsupported('function of a non-finite number')


def _ufunc2(f, kind):
    def g(x, y, out=None, where=None, dtype=None):
        if scalar(x) and scalar(y):
            r = wrap(z3.simplify(f(*_co(x, y))))
        else:
            r = elementwise(f, [x if scalar(x) else asarray(x), y if scalar(y) else asarray(y)], kind)
        if where is not None and where is not True:
            m = toarr(where)
            base = out if out is not None else empty(r.shape)
            rr = elementwise(lambda a, b: a + b, [r, 0.0], 'real') if kind == 'real' else r
            shape = rr.shape
            rm, rv, rb = bcast_reader(m, shape), bcast_reader(rr, shape), bcast_reader(base, shape)
            k = base.kind
            r = Arr.make(shape, k, lambda *ix: z3.If(rm(*ix), cast(rv(*ix), k), rb(*ix)))
        if out is not None:
            out[tuple([slice(None)] * out.ndim)] = r
            return out
        return r
    return g


def _co(x, y):
    from .core import coerce2
    return coerce2(x, y)


def _sign(t):
    one, zero = (z3.IntVal(1), z3.IntVal(0)) if z3.is_int(t) else (z3.RealVal(1), z3.RealVal(0))
    return z3.If(t > 0, one, z3.If(t < 0, -one, zero))


absolute = _ufunc1(lambda t: z3.If(t >= 0, t, -t), None)
square = _ufunc1(lambda t: t * t, None)
sign = _ufunc1(_sign, None)
sqrt = _ufunc1(lambda t: funcs.sqrt(t), 'real')
exp = _ufunc1(lambda t: funcs.exp(t), 'real')
log = _ufunc1(lambda t: funcs.log(t), 'real')
log1p = _ufunc1(lambda t: funcs.log1p(t), 'real')
sin = _ufunc1(lambda t: Ctx.cur.unsupported('sin'), 'real')
cos = _ufunc1(lambda t: Ctx.cur.unsupported('cos'), 'real')
maximum = _ufunc2(lambda a, b: z3.If(a >= b, a, b), 'num')
minimum = _ufunc2(lambda a, b: z3.If(a <= b, a, b), 'num')
true_divide = _ufunc2(lambda a, b: to_real(a) / to_real(b), 'real')
multiply = _ufunc2(lambda a, b: a * b, 'num')
add = _ufunc2(lambda a, b: a + b, 'num')
subtract = _ufunc2(lambda a, b: a - b, 'num')
power = _ufunc2(lambda a, b: funcs.power(a, b), 'real')
logical_and = _ufunc2(lambda a, b: And(_tb(a), _tb(b)), 'bool')
logical_or = _ufunc2(lambda a, b: Or(_tb(a), _tb(b)), 'bool')
logical_xor = _ufunc2(lambda a, b: z3.Xor(_tb(a), _tb(b)), 'bool')
logaddexp = _ufunc2(lambda a, b: funcs.log(funcs.exp(a) + funcs.exp(b)), 'real')


def logical_not(x):
    return ~asarray(x)


def _tb(t):
    return t if z3.is_bool(t) else t != 0


def clip(x, a, b, out=None):
    r = x
    if a is not None:
        r = maximum(r, a)
    if b is not None:
        r = minimum(r, b)
    if out is not None:
        out[tuple([slice(None)] * out.ndim)] = r
        return out
    return r


def _red(op):
    def g(x, axis=None, **kw):
        return red.reduce_axis(op, asarray(x), axis)
    return g


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return all_(a == b)


def all_(x, axis=None):
    if isinstance(x, (SymBool, bool)):
        return x
    return red.reduce_axis('all', asarray(x), axis)


def any_(x, axis=None):
    if isinstance(x, (SymBool, bool)):
        return x
    return red.reduce_axis('any', asarray(x), axis)


def mean(x, axis=None):
    return asarray(x).mean(axis=axis)


def dot(a, b):
    return red.dot(a, b)


def norm(x, ord=None, axis=None):
    x = asarray(x)
    if ord is None or ord == 2:
        if axis is None and x.ndim > 1:
            s = red.reduce_axis('sum', square(x), None)
        else:
            s = red.reduce_axis('sum', square(x), axis)
        return sqrt(s)
    if ord == 1:
        return red.reduce_axis('sum', absolute(x), axis)
    if isinstance(ord, float) and math.isinf(ord):
        return red.reduce_axis('max', absolute(x), axis)
    Ctx.cur.unsupported('norm of order %r' % (ord,))


def np_sort(a, axis=-1):
    """sorted copy of a vector: non-decreasing, and a permutation of the input (p, q inverse of each other)"""
    a = asarray(a)
    if a.ndim != 1:
        Ctx.cur.unsupported('np.sort of a matrix')
    c = Ctx.cur
    n = dterm(a.shape[0])
    rd = a.reader()
    p, q = c.func('sortp', Int, Int), c.func('sortq', Int, Int)
    s = c.func('sorted', Int, Real if a.kind == 'real' else Int)
    v = lambda i: to_int(rd(i))
    rng = lambda i: And(i >= 0, i < n)
    c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(p(i)), q(p(i)) == i, s(i) == v(p(i)))), lambda i: [s(i)]))
    c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(p(i)), q(p(i)) == i, s(i) == v(p(i)))), lambda i: [p(i)]))
    c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(q(i)), p(q(i)) == i, s(q(i)) == v(i))), lambda i: [q(i)]))
    try:
        c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(q(i)), p(q(i)) == i, s(q(i)) == v(i)))))
    except z3.Z3Exception:
        pass
    from .arrays import own_terms
    try:
        hs = own_terms(v(z3.Const('sortkey', Int)), z3.Const('sortkey', Int))
        if hs:
            c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(q(i)), p(q(i)) == i, s(q(i)) == v(i))), lambda i: own_terms(v(i), i)))
    except z3.Z3Exception:
        pass
    c.assume(Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i <= j, j < n), s(i) <= s(j)),
                    lambda i, j: [z3.MultiPattern(s(i), s(j))]))
    r = Arr.make(a.shape, a.kind, lambda i: s(i) if a.kind != 'bool' else s(i) != 0)
    r.sort_perm = (p, q)
    return r


def argsort(a, axis=-1):
    r = np_sort(a)
    p = r.sort_perm[0]
    return Arr.make(r.shape, 'int', lambda i: p(i))


def unique(a, axis=None, return_counts=False, return_inverse=False):
    if return_counts or return_inverse:
        Ctx.cur.unsupported('np.unique with extra outputs')
    a = asarray(a)
    c = Ctx.cur
    rd = a.reader()
    n = dterm(a.shape[0])
    m = c.const('nuniq', Int)
    src, pos = c.func('usrc', Int, Int), c.func('upos', Int, Int)
    c.assume(m >= 0, m <= n, Implies(n > 0, m > 0))
    rng, rngm = (lambda i: And(i >= 0, i < n)), (lambda i: And(i >= 0, i < m))
    if a.ndim == 1:
        s = c.func('uniq', Int, Real if a.kind == 'real' else Int)
        v = lambda i: to_int(rd(i))
        c.assume(Forall([Int], lambda i: Implies(rngm(i), And(rng(src(i)), s(i) == v(src(i)))), lambda i: [s(i)]))
        c.assume(Forall([Int], lambda i: Implies(rng(i), And(rngm(pos(i)), s(pos(i)) == v(i)))))
        c.assume(Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < j, j < m), s(i) < s(j)),
                        lambda i, j: [z3.MultiPattern(s(i), s(j))]))
        return Arr.make((dim_wrap(m),), a.kind, lambda i: s(i))
    if a.ndim == 2 and axis == 0:
        c.assume(Forall([Int], lambda i: Implies(rngm(i), rng(src(i))), lambda i: [src(i)]))
        w = dterm(a.shape[1])
        c.assume(Forall([Int, Int], lambda i, k: Implies(And(rng(i), k >= 0, k < w),
                                                         And(rngm(pos(i)), rd(src(pos(i)), k) == rd(i, k)))))
        return Arr.make((dim_wrap(m), a.shape[1]), a.kind, lambda i, k: rd(src(i), k))
    c.unsupported('np.unique along an axis')


def cumsum(a, axis=None):
    a = asarray(a)
    c = Ctx.cur
    if a.ndim == 2 and axis in (1, -1):
        rd, n, m = a.reader(), dterm(a.shape[0]), dterm(a.shape[1])
        s = c.func('cumsum', Int, Int, Real if a.kind == 'real' else Int)
        v = lambda i, j: to_int(rd(i, j))
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < n, m > 0), s(i, z3.IntVal(0)) == v(i, z3.IntVal(0))), lambda i: [s(i, z3.IntVal(0))]),
                 Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < n, j > 0, j < m), s(i, j) == s(i, j - 1) + v(i, j)), lambda i, j: [s(i, j)]))
        c.memo.setdefault('cumsums', []).append(s)
        return Arr.make(a.shape, a.kind, lambda i, j: s(i, j))
    if a.ndim != 1:
        c.unsupported('cumsum of a matrix')
    if isinstance(a.shape[0], int):
        out, acc = [], 0
        for i in range(a.shape[0]):
            acc = acc + a[i]
            out.append(acc)
        return from_list(out)
    rd, n = a.reader(), dterm(a.shape[0])
    s = c.func('cumsum', Int, Real if a.kind == 'real' else Int)
    v = lambda i: to_int(rd(i))
    c.assume(Implies(n > 0, s(z3.IntVal(0)) == v(z3.IntVal(0))),
             Forall([Int], lambda i: Implies(And(i > 0, i < n), s(i) == s(i - 1) + v(i)), lambda i: [s(i)]))
    c.memo.setdefault('cumsums', []).append(s)
    return Arr.make(a.shape, a.kind, lambda i: s(i))


def eye(n, dtype=None):
    one, zero = z3.RealVal(1), z3.RealVal(0)
    return Arr.make((n, n), 'real', lambda i, j: z3.If(i == j, one, zero))


def diag(a):
    a = asarray(a)
    rd = a.reader()
    if a.ndim == 1:
        zero = z3.RealVal(0) if a.kind == 'real' else z3.IntVal(0)
        return Arr.make((a.shape[0], a.shape[0]), a.kind, lambda i, j: z3.If(i == j, rd(i), zero))
    return Arr.make((a.shape[0],), a.kind, lambda i: rd(i, i))


def diag_indices_from(a):
    a = asarray(a)
    if a.ndim != 2:
        Ctx.cur.unsupported('diag_indices_from of a %d-d array' % a.ndim)
    if not dim_eq(a.shape[0], a.shape[1]):
        raise ValueError('All dimensions of input must be of equal length')
    r = Arr.make((a.shape[0],), 'int', lambda i: i)
    r.nonneg = True
    return (r, r)


def fill_diagonal(a, v):
    t = as_term(v)
    inv = a._vcond(a.shape, a.dims)
    a.buf.write(lambda *b: And(inv(*b)[0], inv(*b)[1][0] == inv(*b)[1][1]), lambda *b: t)


def copyto(dst, src, where=True):
    if where is not True:
        Ctx.cur.unsupported('copyto with where')
    dst[tuple([slice(None)] * dst.ndim)] = asarray(src)


def fromiter(it, dtype, count=-1):
    k = kind_of_dtype(dtype)
    if isinstance(it, (GenExp, SymMap, SymList)) or is_symbolic_seq(it):
        n, e = as_seq(it)
        if isinstance(n, int):
            it = [e(z3.IntVal(i)) for i in range(n)]
        else:
            return Arr.make((n,), k, lambda i: cast(num_term(e(i)), k))
    return from_list(list(it)).astype(dtype) if True else None


def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->')
    ins = ins.split(',')
    ops = [asarray(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: operand does not match subscripts')
        for ch, d in zip(s, o.shape):
            if ch in dims and not dim_eq(dims[ch], d):
                raise ValueError('einsum: dimensions do not match')
            dims.setdefault(ch, d)
    summed = [ch for ch in dims if ch not in out]
    if len(summed) != 1:
        Ctx.cur.unsupported('einsum with %d summed indices' % len(summed))
    rds = [o.reader() for o in ops]
    kind = 'real'

    def entry(*ix):
        env = dict(zip(out, ix))

        def term(j):
            e = dict(env)
            e[summed[0]] = j
            r = None
            for s, rd in zip(ins, rds):
                v = to_real(rd(*[e[ch] for ch in s]))
                r = v if r is None else r * v
            return r
        return red.reduce1('sum', term, dims[summed[0]], kind)
    if not out:
        return wrap(entry())
    return red._rows([dims[ch] for ch in out], entry)


def linspace(*a, **k):
    return None if Ctx.cur is None else Ctx.cur.unsupported('linspace')


# ---------------------------------------------------------------------------------------------------------------------
# randomness: arbitrary values of the documented range
# ---------------------------------------------------------------------------------------------------------------------
def _rand_event():
    c = Ctx.cur
    c.memo['rand'] = c.memo.get('rand', 0) + 1


def choice(a, size=None, replace=True, p=None):
    c = Ctx.cur
    _rand_event()
    if isinstance(a, (SymNum, int)):
        n, el = a, (lambda i: wrap(i))
        rd = lambda i: i
        kind = 'int'
    else:
        a = asarray(a)
        n, rd, kind = a.shape[0], a.reader(), a.kind
    nt = dterm(n) if not isinstance(n, SymNum) else n.t
    if size is None:
        if not c.branch(nt > 0):
            raise ValueError("a must be greater than 0 unless no samples are taken")
        j = c.const('choice', Int)
        c.assume(j >= 0, j < nt)
        if p is not None:
            pr = toarr(p).reader()
            c.assume(pr(j) > 0)
        if not isinstance(a, (SymNum, int)) and a.ndim > 1:
            raise ValueError('a must be 1-dimensional')
        r = wrap(rd(j))
        return r
    st = num_term(size)
    if not c.branch(st >= 0):
        raise ValueError('negative dimensions are not allowed')
    if replace is False or (isinstance(replace, SymBool) and not bool(replace)) or not replace:
        if not c.branch(st <= nt):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        f, g = c.func('draw', Int, Int), c.func('drawinv', Int, Int)
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < st), And(f(i) >= 0, f(i) < nt, g(f(i)) == i)),
                        lambda i: [f(i)]))
        # sampling everything is a permutation
        c.assume(Implies(st == nt, Forall([Int], lambda k: Implies(And(k >= 0, k < nt),
                                                                   And(g(k) >= 0, g(k) < st, f(g(k)) == k)),
                                          lambda k: [g(k)])))
    else:
        if not c.branch(Or(nt > 0, st == 0)):
            raise ValueError("a must be greater than 0 unless no samples are taken")
        f = c.func('draw', Int, Int)
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < st), And(f(i) >= 0, f(i) < nt)), lambda i: [f(i)]))
    r = Arr.make((dim_wrap(st),), kind, lambda i: rd(f(i)))
    r.nonneg = kind == 'int' and isinstance(a, (SymNum, int))
    return r


def _rand_array(shape, lo=None, hi=None, kind='real', hi_open=True):
    c = Ctx.cur
    _rand_event()
    if not shape:
        r = SymNum(c.const('rnd', Real if kind == 'real' else Int))
        if lo is not None:
            c.assume(r.t >= num_term(lo), (r.t < num_term(hi)) if hi_open else (r.t <= num_term(hi)))
        return r
    a = Arr.fresh('rnd', shape, kind)
    if lo is not None:
        rd = a.reader()
        lt, ht = num_term(lo), num_term(hi)
        if kind == 'real':
            lt, ht = to_real(lt), to_real(ht)
        c.assume(Forall([Int] * len(shape), lambda *ix: And(rd(*ix) >= lt, rd(*ix) < ht), lambda *ix: [rd(*ix)]))
    return a


def rand(*shape):
    return _rand_array(shape, 0.0, 1.0)


def randint(low, high=None, size=None, dtype=None):
    if high is None:
        low, high = 0, low
    if not Ctx.cur.branch(num_term(low) < num_term(high)):
        if size is not None and not isinstance(size, tuple) and Ctx.cur.branch(num_term(size) == 0):
            return Arr.make((0,), 'int', lambda i: z3.IntVal(0))
        raise ValueError('low >= high')
    return _rand_array(() if size is None else _shape(size), low, high, 'int')


def normal(loc=0.0, scale=1.0, size=None):
    return _rand_array(() if size is None else _shape(size))


def uniform(low=0.0, high=1.0, size=None):
    c = Ctx.cur
    r = _rand_array(() if size is None else _shape(size))
    if size is None:
        lo, hi = num_term(low), num_term(high)
        lo, hi = to_real(lo), to_real(hi)
        c.assume(Or(And(lo <= r.t, r.t <= hi), And(hi <= r.t, r.t <= lo)))
    return r


def shuffle(a):
    c = Ctx.cur
    _rand_event()
    if not isinstance(a, Arr):
        c.unsupported('shuffle of a list')
    n = dterm(a.shape[0])
    f, g = c.func('shuf', Int, Int), c.func('shufinv', Int, Int)
    rng = lambda i: And(i >= 0, i < n)
    c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(f(i)), g(f(i)) == i)), lambda i: [f(i)]))
    c.assume(Forall([Int], lambda i: Implies(rng(i), And(rng(g(i)), f(g(i)) == i)), lambda i: [g(i)]))
    rd = a.reader()
    r = Arr.make(a.shape, a.kind, lambda i, *ix: rd(f(i), *ix))
    a[tuple([slice(None)] * a.ndim)] = r


def permutation(n):
    a = arange(n) if not isinstance(n, Arr) else n.copy()
    shuffle(a)
    return a


def seed(s=None):
    c = Ctx.cur
    if c is not None:
        c.memo['seed'] = s
        ev = c.memo.get('events')
        if ev is not None:
            ev.append(('np.seed', s))


class RandomState:
    def __init__(self, seed=None):
        self.seed_ = seed
    rand = staticmethod(rand)
    randint = staticmethod(randint)
    normal = staticmethod(normal)
    uniform = staticmethod(uniform)
    choice = staticmethod(choice)
    shuffle = staticmethod(shuffle)
    permutation = staticmethod(permutation)

    @staticmethod
    def randn(*shape):
        return _rand_array(shape)


class _DT:
    def __init__(self, name):
        self.__pvname__ = name
        self.__name__ = name

    def __call__(self, x=0):
        from .builtins_ import pv_float, pv_int, pv_bool
        return (pv_float if 'float' in self.__pvname__ else pv_bool if 'bool' in self.__pvname__ else pv_int)(x)


class integer:
    """np.integer: no symbolic value is an instance (indices are Python ints in the model)"""


class floating:
    pass


def module():
    m = types.ModuleType('numpy')
    m.__path__ = []
    d = dict(
        ndarray=Arr, integer=integer, floating=floating, inf=math.inf, nan=math.nan, pi=math.pi, e=math.e, newaxis=None,
        float64=_DT('float64'), float32=_DT('float32'), int64=_DT('int64'), int32=_DT('int32'), bool_=_DT('bool'),
        full=full, zeros=zeros, ones=ones, empty=empty, zeros_like=zeros_like, ones_like=ones_like, full_like=full_like,
        empty_like=empty_like, arange=arange, asarray=asarray, array=array, ravel=ravel, atleast_1d=atleast_1d,
        atleast_2d=atleast_2d, concatenate=concatenate, hstack=hstack, vstack=vstack, stack=stack, dstack=dstack, column_stack=column_stack, r_=_R(), c_=_C(), where=where,
        nonzero=nonzero, flatnonzero=flatnonzero, abs=absolute, absolute=absolute, square=square, sign=sign, sqrt=sqrt,
        exp=exp, log=log, log1p=log1p, sin=sin, cos=cos, maximum=maximum, minimum=minimum, true_divide=true_divide,
        divide=true_divide, multiply=multiply, add=add, subtract=subtract, power=power, logical_and=logical_and,
        logical_or=logical_or, logical_xor=logical_xor, logical_not=logical_not, logaddexp=logaddexp, clip=clip,
        sum=_red('sum'), prod=_red('prod'), min=_red('min'), max=_red('max'), amin=_red('min'), amax=_red('max'),
        all=all_, any=any_, argmax=_red('argmax'), argmin=_red('argmin'), mean=mean, dot=dot, matmul=dot, sort=np_sort,
        argsort=argsort, unique=unique, cumsum=cumsum, eye=eye, diag=diag, diag_indices_from=diag_indices_from,
        fill_diagonal=fill_diagonal, copyto=copyto, fromiter=fromiter, einsum=einsum, linspace=linspace,
        copy=lambda a: asarray(a).copy(), ascontiguousarray=asarray, asfortranarray=asarray,
        squeeze=lambda a: asarray(a), isscalar=scalar, ndim=lambda a: asarray(a).ndim, shape=lambda a: asarray(a).shape,
        array_equal=array_equal,
    )
    m.__dict__.update(d)
    la = types.ModuleType('numpy.linalg')
    la.norm = norm
    rn = types.ModuleType('numpy.random')
    for k, v in dict(choice=choice, rand=rand, randint=randint, normal=normal, uniform=uniform, shuffle=shuffle,
                     permutation=permutation, seed=seed, RandomState=RandomState,
                     random=lambda size=None: _rand_array(() if size is None else _shape(size), 0.0, 1.0),
                     randn=RandomState.randn).items():
        setattr(rn, k, v)
    m.linalg, m.random = la, rn
    return m, la, rn
