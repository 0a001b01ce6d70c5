"""Symbolic n-dimensional arrays: shape (concrete or symbolic) and contents given by a function of the indices.

Views share a mutable buffer (numpy's aliasing), fancy indexing copies, element type is bool / int / real.
Floats are mathematical reals (assumption); integer overflow does not exist (assumption)."""
import math

import z3

from .core import (Ctx, SymBool, SymNum, And, Forall, If, Implies, Int, Not, Or, as_term, coerce2, num_term, to_int,
                   to_real, wrap, Bool, Real)

SORT = {'bool': Bool, 'int': Int, 'real': Real}


def kind_of_term(t):
    return 'bool' if z3.is_bool(t) else 'int' if z3.is_int(t) else 'real'


def join_kind(a, b):
    order = ['bool', 'int', 'real']
    return order[max(order.index(a), order.index(b))]


def cast(t, kind):
    if kind == 'real':
        return to_real(t)
    if kind == 'int':
        if z3.is_real(t):
            t = z3.simplify(t)
            if z3.is_rational_value(t) and t.denominator_as_long() == 1:
                return z3.IntVal(t.numerator_as_long())
            return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))          # truncation, as numpy does
        return to_int(t)
    if z3.is_bool(t):
        return t
    return t != 0


class Cell:
    """A mutable symbolic cell: contents replaced on write, with a version for frame checks."""

    def _init_cell(self):
        c = Ctx.cur
        self.version = 0
        self.birth = len(c.cells)
        c.cells.append(self)

    def touch(self):
        self.version += 1
        c = Ctx.cur
        if c.sub and self.birth < getattr(c, 'barrier', 0):
            c.unsupported('write to an outer collection inside a comprehension')


class Buf(Cell):
    def __init__(self, fn, kind, rank):
        self.fn, self.kind, self.rank = fn, kind, rank
        self._init_cell()

    def write(self, cond, val):
        """new contents: val(idx) where cond(idx), old contents elsewhere"""
        old, kind = self.fn, self.kind
        def fn(*ix):
            c = z3.simplify(cond(*ix))
            if z3.is_true(c):
                return cast(val(*ix), kind)
            if z3.is_false(c):
                return old(*ix)
            return z3.If(c, cast(val(*ix), kind), old(*ix))
        self.fn = fn
        self.touch()

    def havoc(self):
        f = Ctx.cur.func('h', *([Int] * self.rank), SORT[self.kind])
        self.fn = lambda *ix: f(*ix)
        self.touch()


class RevBuf(Buf):
    """A reversed array.  In the verified source it is a view: reading it after a write to its base, and writing through it,
    are out of reach."""

    def __init__(self, base, fn):
        v = base.version

        def read(*ix):
            if base.version != v:
                Ctx.cur.unsupported('a reversed view read after a write to its base')
            return fn(*ix)
        Buf.__init__(self, read, base.kind, 0)

    def write(self, cond, val):
        Ctx.cur.unsupported('a write through a reversed view')

    def havoc(self):
        Ctx.cur.unsupported('a reversed view alive across a loop')


def dterm(d):
    return z3.IntVal(d) if isinstance(d, int) else d.t


def dim_wrap(t):
    t = z3.simplify(t) if not isinstance(t, int) else z3.IntVal(t)
    return wrap(t)


def dim_same(a, b):
    """equal dimensions, without branching"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = dterm(a), dterm(b)
    if ta.eq(tb):
        return True
    return Ctx.cur.entails(ta == tb)


def dim_eq(a, b):
    """equal dimensions, branching when undetermined"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = dterm(a), dterm(b)
    if ta.eq(tb) or Ctx.cur.entails(ta == tb):
        return True
    return Ctx.cur.branch(ta == tb)


def concrete_mask(a):
    """the true positions of a boolean array with known contents, in row order; None if they are not known"""
    import itertools
    if not all(isinstance(n, int) for n in a.shape) or math.prod(a.shape) > 100:
        return None
    rd, pts = a.reader(), []
    for ix in itertools.product(*[range(n) for n in a.shape]):
        t = z3.simplify(rd(*[z3.IntVal(i) for i in ix]))
        if not (z3.is_true(t) or z3.is_false(t)):
            if Ctx.cur.entails(t):
                t = z3.BoolVal(True)
            elif not Ctx.cur.entails(z3.Not(t)):
                return None
            else:
                t = z3.BoolVal(False)
        if z3.is_true(t):
            pts.append(ix)
    return pts


class Arr:
    __pvarr__ = True
    __array_priority__ = 10000

    def __init__(self, buf, shape, dims=None):
        self.buf = buf
        self.shape = tuple(shape)
        self.dims = tuple(dims) if dims is not None else tuple(('ax', k, None) for k in range(len(self.shape)))

    # ---------------------------------------------------------------- construction
    @staticmethod
    def make(shape, kind, fn):
        return Arr(Buf(fn, kind, len(shape)), shape)

    @staticmethod
    def fresh(base, shape, kind):
        f = Ctx.cur.func(base, *([Int] * len(shape)), SORT[kind])
        return Arr.make(shape, kind, lambda *ix: f(*ix))

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    # ---------------------------------------------------------------- reading
    def _bidx(self, ix):
        out = []
        for d in self.dims:
            if d[0] == 'fix':
                out.append(d[1])
            else:
                t = ix[d[1]]
                out.append(t if d[2] is None else t + d[2])
        return out

    def reader(self):
        """the current contents as an immutable function of view indices"""
        fn = self.buf.fn
        return lambda *ix: fn(*self._bidx(ix))

    def at(self, *ix):
        return self.buf.fn(*self._bidx([as_term(i) for i in ix]))

    def val(self, *ix):
        return wrap(z3.simplify(self.at(*ix)))

    def __pvlen__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __len__(self):
        n = self.__pvlen__()
        if isinstance(n, int):
            return n
        Ctx.cur.unsupported('native len() of an array of symbolic size')

    def __iter__(self):
        n = self.__pvlen__()
        if not isinstance(n, int):
            Ctx.cur.unsupported('native iteration over an array of symbolic size')
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            return bool(wrap(self.at(*([z3.IntVal(0)] * self.ndim)) != 0 if self.kind != 'bool'
                             else self.at(*([z3.IntVal(0)] * self.ndim))))
        if all(isinstance(d, int) for d in self.shape):
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        Ctx.cur.unsupported('truth value of an array of symbolic size')

    __hash__ = None

    def __repr__(self):
        return 'Arr%s:%s' % (self.shape, self.kind)

    def __format__(self, spec):
        return repr(self)

    # ---------------------------------------------------------------- indexing
    def _norm_index(self, i, axis):
        """a scalar index on an axis: bounds branch, negative wrap"""
        n = dterm(self.shape[axis])
        t = num_term(i)
        c = Ctx.cur
        if z3.is_int_value(t) and t.as_long() < 0:
            if not c.branch(n + t >= 0):
                raise IndexError('index out of bounds')
            return z3.simplify(n + t)
        if z3.is_int_value(t):
            if not c.branch(t < n):
                raise IndexError('index out of bounds')
            return t
        if c.sub and c.entails(And(t >= 0, t < n)):     # decided by quantified facts: no case distinction under a binder
            return t
        if c.branch(And(t >= 0, t < n)):
            return t
        if c.branch(And(t < 0, t + n >= 0)):
            return t + n
        raise IndexError('index out of bounds')

    def _norm_slice(self, s, axis):
        n = self.shape[axis]
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            Ctx.cur.unsupported('slice with a step')
        def clip(v, default):
            if v is None:
                return default
            if isinstance(v, int) and isinstance(n, int):
                return min(max(v + n if v < 0 else v, 0), n)
            t = num_term(v)
            nt = dterm(n)
            if z3.is_int_value(t) and t.as_long() == 0:
                return 0
            c = Ctx.cur
            if c.entails(And(t >= 0, t <= nt)):
                return dim_wrap(t)
            if z3.is_int_value(t) and t.as_long() < 0:
                return dim_wrap(z3.If(nt + t >= 0, nt + t, z3.IntVal(0)))
            w = z3.If(t < 0, t + nt, t)
            return dim_wrap(z3.If(w < 0, z3.IntVal(0), z3.If(w > nt, nt, w)))
        a, b = clip(s.start, 0), clip(s.stop, n)
        if isinstance(a, int) and a == 0:
            return 0, b
        ln = dim_wrap(dterm(b) - dterm(a))
        if isinstance(ln, int):
            return a, max(ln, 0)
        if not Ctx.cur.entails(ln.t >= 0):
            ln = dim_wrap(z3.If(ln.t >= 0, ln.t, z3.IntVal(0)))
        return a, ln

    def _key(self, item):
        from .collections_ import SymList
        items = list(item) if isinstance(item, tuple) else [item]
        out = []
        for it in items:
            if isinstance(it, SymList):
                it = it.toarr()
            elif isinstance(it, (list, range)):
                it = from_list(list(it))
                if it.shape[0] == 0:
                    it = Arr.make((0,), 'int', lambda i: z3.IntVal(0))
            elif isinstance(it, SymBool):
                Ctx.cur.unsupported('indexing with a symbolic bool')
            out.append(it)
        if any(x is Ellipsis for x in out):
            k = [x is Ellipsis for x in out].index(True)
            used = sum(1 for x in out if x is not None and x is not Ellipsis)
            out[k:k + 1] = [slice(None)] * (self.ndim - used)
        ndim_used = sum((x.ndim if isinstance(x, Arr) and x.kind == 'bool' else 1) for x in out if x is not None)
        if ndim_used > self.ndim:
            raise IndexError('too many indices for array')
        out += [slice(None)] * (self.ndim - ndim_used)
        return out

    def _view(self, key):
        """basic indexing -> view"""
        sub, shape, ax, vax = {}, [], 0, 0
        for it in key:
            if it is None:
                shape.append(1)
                vax += 1
                continue
            if isinstance(it, slice):
                off, ln = self._norm_slice(it, ax)
                sub[ax] = ('ax', vax, off)
                shape.append(ln)
                vax += 1
            else:
                sub[ax] = ('fix', self._norm_index(it, ax))
            ax += 1
        dims = []
        for d in self.dims:
            if d[0] == 'fix':
                dims.append(d)
                continue
            s = sub[d[1]]
            o0 = d[2]
            if s[0] == 'fix':
                dims.append(('fix', s[1] if o0 is None else z3.simplify(s[1] + o0)))
            else:
                o = None if isinstance(s[2], int) and s[2] == 0 else dterm(s[2])
                if o is None:
                    o = o0
                elif o0 is not None:
                    o = z3.simplify(o + o0)
                dims.append(('ax', s[1], o))
        return Arr(self.buf, shape, dims)

    def reversed_along(self, ax):
        rd, n = self.reader(), dterm(self.shape[ax])
        b = RevBuf(self.buf, lambda *ix: rd(*[z3.simplify(n - 1 - i) if k == ax else i for k, i in enumerate(ix)]))
        b.rank = self.ndim
        return Arr(b, self.shape)

    def __getitem__(self, item):
        key = self._key(item)
        for k, x in enumerate(key):
            if isinstance(x, slice) and isinstance(x.step, int) and x.step == -1 and x.start is None and x.stop is None \
                    and not any(y is None or isinstance(y, Arr) for y in key):
                ax = k
                rest = list(key)
                rest[k] = slice(None)
                return self.reversed_along(ax)[tuple(rest)]
        adv = [k for k, x in enumerate(key) if isinstance(x, Arr)]
        if not adv:
            v = self._view(key)
            if v.ndim == 0:
                return wrap(z3.simplify(v.at()))
            return v
        if len(adv) > 1:
            return self._multi_fancy(key, adv)
        a = key[adv[0]]
        pre = self._view([slice(None) if isinstance(x, Arr) and x.kind != 'bool' else x for x in key]) \
            if a.kind != 'bool' else None
        if a.kind == 'bool':
            if a.ndim > 1:
                return self._take_mask(key, adv[0], a)
            ax = adv[0]
            if not dim_eq(a.shape[0], self.shape[ax]):
                raise IndexError('boolean index did not match indexed array')
            sel, m = mask_select(a)
            idx = Arr.make((m,), 'int', sel)
            key[ax] = idx
            return self._take(key, ax, idx, checked=True)
        return self._take(key, adv[0], a)

    def _mask_at(self, key, pos, a):
        """a concrete mask of several dimensions: view with these axes, its first masked axis, the true positions in order"""
        sub = list(key[:pos]) + [slice(None)] * a.ndim + list(key[pos + 1:])
        base = self._view(sub)
        ax = sum(1 for k in range(pos) if key[k] is None or isinstance(key[k], slice))
        for s1, s2 in zip(a.shape, base.shape[ax:ax + a.ndim]):
            if not dim_eq(s1, s2):
                raise IndexError('boolean index did not match indexed array')
        return base, ax, concrete_mask(a)

    def _take_mask(self, key, pos, a):
        base, ax, pts = self._mask_at(key, pos, a)
        if pts is None:
            if a.ndim != self.ndim:
                Ctx.cur.unsupported('boolean mask of more than one dimension')
            return Carried(self.copy(), ('mask', a, a.buf.version), a.copy())
        rd = base.reader()
        shape = list(base.shape[:ax]) + [len(pts)] + list(base.shape[ax + a.ndim:])

        def read(*ix):
            j = ix[ax]
            vals = [rd(*(list(ix[:ax]) + [z3.IntVal(q) for q in p] + list(ix[ax + 1:]))) for p in pts]
            if not vals:
                return rd(*(list(ix[:ax]) + [z3.IntVal(0)] * a.ndim + list(ix[ax + 1:])))
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = z3.If(j == k, vals[k], r)
            return z3.simplify(r)
        return Arr.make(shape, self.kind, read)

    def _put_mask(self, key, pos, a, value):
        base, ax, pts = self._mask_at(key, pos, a)
        if pts is None:
            if not (isinstance(value, Carried) and value.tag[0] == 'mask' and value.tag[1] is a and value.tag[2] == a.buf.version):
                Ctx.cur.unsupported('boolean mask of more than one dimension')
            m, rd, inv = a.copy().reader(), value.arr.reader(), self._vcond(self.shape, self.dims)
            self.buf.write(lambda *b: And(inv(*b)[0], m(*inv(*b)[1])), lambda *b: rd(*inv(*b)[1]))
            return
        shape = list(base.shape[:ax]) + [len(pts)] + list(base.shape[ax + a.ndim:])
        inv = self._vcond(base.shape, base.dims)
        if not pts:
            return
        rd = bcast_reader(value, shape)
        at = lambda v, p: And([v[ax + i] == q for i, q in enumerate(p)])

        def cond(*b):
            c0, v = inv(*b)
            return And(c0, z3.Or([at(v, p) for p in pts]))

        def val(*b):
            v = inv(*b)[1]
            el = lambda k: rd(*(list(v[:ax]) + [z3.IntVal(k)] + list(v[ax + a.ndim:])))
            r = el(len(pts) - 1)
            for k in range(len(pts) - 2, -1, -1):
                r = z3.If(at(v, pts[k]), el(k), r)
            return r
        base.buf.write(cond, val)

    def _take(self, key, pos, idx, checked=False):
        """fancy indexing along one axis (copies)"""
        base = self._view([slice(None) if k == pos else x for k, x in enumerate(key)])
        # axis of the view corresponding to position pos
        ax = sum(1 for k in range(pos) if key[k] is None or isinstance(key[k], slice))
        if idx.ndim != 1:
            if idx.ndim == 0:
                Ctx.cur.unsupported('0-d index array')
            Ctx.cur.unsupported('index array of more than one dimension')
        n = dterm(base.shape[ax])
        g = idx.reader()
        if idx.kind == 'bool':
            Ctx.cur.unsupported('mask')
        if not checked:
            check_index_range(idx, n)
            g0 = g
            if not getattr(idx, 'nonneg', False) and not Ctx.cur.entails(
                    Forall([Int], lambda j: Implies(And(j >= 0, j < dterm(idx.shape[0])), g0(j) >= 0))):
                g = lambda j: z3.If(g0(j) < 0, g0(j) + n, g0(j))
        rd = base.reader()
        shape = list(base.shape)
        shape[ax] = idx.shape[0]
        r = Arr.make(shape, self.kind, lambda *ix: rd(*[g(t) if k == ax else t for k, t in enumerate(ix)]))
        if getattr(idx, 'enum_of', None) is not None and idx.buf.version == 0 and base.ndim == 2:
            r.taken = (Arr.make(base.shape, self.kind, rd), ax, idx.enum_of)
        return r

    def _multi_fancy(self, key, adv):
        if any(key[k].kind == 'bool' for k in adv) or any(key[k].ndim != 1 for k in adv):
            Ctx.cur.unsupported('combined fancy indices')
        if len(key) != len(adv):
            Ctx.cur.unsupported('combined fancy indices and slices')
        gs = []
        for ax, k in enumerate(key):
            check_index_range(k, dterm(self.shape[ax]))
            gs.append(k.reader())
        rd = self.reader()
        return Arr.make((key[0].shape[0],), self.kind, lambda j: rd(*[g(j) for g in gs]))

    # ---------------------------------------------------------------- writing
    def _vcond(self, shape, dims):
        """inverse of a view: buffer index -> (condition, view index)"""
        def inv(*bix):
            conds, vix = [], [z3.IntVal(0)] * len(shape)
            for d, b in zip(dims, bix):
                if d[0] == 'fix':
                    conds.append(b == d[1])
                else:
                    t = b if d[2] is None else b - d[2]
                    vix[d[1]] = t
                    conds += [t >= 0, t < dterm(shape[d[1]])]
            return (And(conds) if conds else z3.BoolVal(True)), vix
        return inv

    def assign_view(self, v, value):
        """v: a view on self.buf"""
        inv = self._vcond(v.shape, v.dims)
        rd = bcast_reader(value, v.shape)
        v.buf.write(lambda *b: inv(*b)[0], lambda *b: rd(*inv(*b)[1]))

    def __setitem__(self, item, value):
        from .collections_ import SymList
        if isinstance(value, SymList):
            value = value.toarr()
        elif isinstance(value, (list, tuple)):
            value = from_list(list(value))
        key = self._key(item)
        adv = [k for k, x in enumerate(key) if isinstance(x, Arr)]
        if not adv:
            self.assign_view(self._view(key), value)
            return
        if len(adv) > 1:
            self._assign_pairs(key, adv, value)
            return
        pos = adv[0]
        a = key[pos]
        if a.kind == 'bool' and a.ndim > 1:
            if a.ndim == self.ndim and not isinstance(value, (Arr, Carried)):
                m = a.reader()
                for s1, s2 in zip(a.shape, self.shape):
                    if not dim_eq(s1, s2):
                        raise IndexError('boolean index did not match indexed array')
                inv = self._vcond(self.shape, self.dims)
                tv = num_term(value)
                self.buf.write(lambda *b: And(inv(*b)[0], m(*inv(*b)[1])), lambda *b: tv)
                return
            self._put_mask(key, pos, a, value)
            return
        base = self._view([slice(None) if k == pos else x for k, x in enumerate(key)])
        ax = sum(1 for k in range(pos) if key[k] is None or isinstance(key[k], slice))
        inv = self._vcond(base.shape, base.dims)
        if a.kind == 'bool':
            if not dim_eq(a.shape[0], base.shape[ax]):
                raise IndexError('boolean index did not match indexed array')
            m = a.reader()
            cond = lambda *b: And(inv(*b)[0], m(inv(*b)[1][ax]))
            if isinstance(value, Arr) and not (value.ndim == 0):
                sel, cnt, rank = mask_select(a, with_rank=True)
                shape = list(base.shape)
                shape[ax] = cnt
                rd = bcast_reader(value, shape)
                val = lambda *b: rd(*[rank(t) if k == ax else t for k, t in enumerate(inv(*b)[1])])
            else:
                tv = num_term(value) if not isinstance(value, Arr) else value.at()
                val = lambda *b: tv
            self.buf.write(cond, val)
            return
        check_index_range(a, dterm(base.shape[ax]))
        n = dterm(base.shape[ax])
        g = a.reader()
        gg = lambda j: z3.If(g(j) < 0, g(j) + n, g(j))
        if getattr(a, 'nonneg', False) or (not isinstance(a.shape[0], int) and Ctx.cur.entails(
                Forall([Int], lambda j: Implies(And(j >= 0, j < dterm(a.shape[0])), g(j) >= 0)))):
            gg = g
        shape = list(base.shape)
        shape[ax] = a.shape[0]
        rd = bcast_reader(value, shape)
        if isinstance(a.shape[0], int):
            for j in range(a.shape[0]):
                jt = z3.IntVal(j)
                pt = z3.simplify(gg(jt)) if not Ctx.cur.entails(g(jt) >= 0) else g(jt)
                base.buf.write(lambda *b, pt=pt: And(inv(*b)[0], inv(*b)[1][ax] == pt),
                               lambda *b, jt=jt: rd(*[jt if k == ax else t for k, t in enumerate(inv(*b)[1])]))
            return
        # symbolic number of rows: last write wins
        c = Ctx.cur
        last = c.func('lastw', Int, Int)
        m = dterm(a.shape[0])
        c.assume(Forall([Int], lambda j: Implies(And(j >= 0, j < m), And(last(gg(j)) >= j, last(gg(j)) < m,
                                                                        gg(last(gg(j))) == gg(j)))))
        hit = lambda p: And(last(p) >= 0, last(p) < m, gg(last(p)) == p)
        base.buf.write(lambda *b: And(inv(*b)[0], hit(inv(*b)[1][ax])),
                       lambda *b: rd(*[last(t) if k == ax else t for k, t in enumerate(inv(*b)[1])]))

    def _assign_pairs(self, key, adv, value):
        """self[mask, columns] = value: one column for every selected row; self[0..m-1, columns] = value"""
        if len(key) == 2 and adv == [0, 1] and self.ndim == 2 and all(k.kind == 'int' and k.ndim == 1 for k in key):
            rows, cols = key
            if not dim_eq(rows.shape[0], cols.shape[0]):
                raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
            check_index_range(rows, dterm(self.shape[0]))
            check_index_range(cols, dterm(self.shape[1]))
            gr, gc, m = rows.reader(), cols.reader(), dterm(rows.shape[0])
            dom = lambda j: And(j >= 0, j < m)
            if not Ctx.cur.entails(Forall([Int], lambda j: Implies(dom(j), And(gr(j) == j, gc(j) >= 0)))):
                Ctx.cur.unsupported('assignment with several fancy indices')
            inv = self._vcond(self.shape, self.dims)
            rd = bcast_reader(value, [rows.shape[0]])
            at = lambda b: inv(*b)[1]
            self.buf.write(lambda *b: And(inv(*b)[0], dom(at(b)[0]), at(b)[1] == gc(at(b)[0])), lambda *b: rd(at(b)[0]))
            return
        if len(key) != 2 or adv != [0, 1] or self.ndim != 2 or key[0].kind != 'bool' or key[0].ndim != 1 or key[1].kind != 'int' or key[1].ndim != 1:
            Ctx.cur.unsupported('assignment with several fancy indices')
        if not dim_eq(key[0].shape[0], self.shape[0]):
            raise IndexError('boolean index did not match indexed array')
        sel, cnt, rank = mask_select(key[0], with_rank=True)
        if not dim_eq(cnt, key[1].shape[0]):
            raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
        check_index_range(key[1], dterm(self.shape[1]))
        n = dterm(self.shape[1])
        m, g0 = key[0].reader(), key[1].reader()
        g = lambda j: z3.If(g0(j) < 0, g0(j) + n, g0(j))
        inv = self._vcond(self.shape, self.dims)
        rd = bcast_reader(value, [cnt])
        at = lambda b: inv(*b)[1]
        self.buf.write(lambda *b: And(inv(*b)[0], m(at(b)[0]), at(b)[1] == g(rank(at(b)[0]))), lambda *b: rd(rank(at(b)[0])))

    # ---------------------------------------------------------------- shape changes
    @property
    def T(self):
        n = self.ndim
        dims = [d if d[0] == 'fix' else ('ax', n - 1 - d[1], d[2]) for d in self.dims]
        return Arr(self.buf, self.shape[::-1], dims)

    def copy(self, order=None):
        return Arr.make(self.shape, self.kind, self.reader())

    def astype(self, dt, copy=True):
        k = kind_of_dtype(dt)
        rd = self.reader()
        return Arr.make(self.shape, k, lambda *ix: cast(rd(*ix), k))

    def ravel(self):
        if self.ndim == 1:
            return self
        return self.reshape(-1)

    def flatten(self):
        return self.ravel().copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, list(shape))

    def tolist(self):
        from .collections_ import SymList
        if all(isinstance(d, int) for d in self.shape):
            if self.ndim == 1:
                return [self.val(z3.IntVal(i)) for i in range(self.shape[0])]
            return [r.tolist() for r in self]
        if self.ndim == 1:
            rd = self.reader()
            return SymList.of(self.shape[0], lambda i: wrap(rd(i)))
        a = self.copy()
        return SymList.of(self.shape[0], lambda i: Arr(a.buf, a.shape[1:], [('fix', i)] + [
            ('ax', k, None) for k in range(a.ndim - 1)]))

    def item(self):
        return wrap(self.at(*([z3.IntVal(0)] * self.ndim)))

    # ---------------------------------------------------------------- elementwise
    def _ew(self, o, f, kind=None, rev=False):
        from .collections_ import SymList
        if isinstance(o, SymList):
            o = o.toarr()
        if isinstance(o, (list, tuple)):
            o = from_list(list(o))
        if o is None:
            return NotImplemented
        return elementwise(f, [o, self] if rev else [self, o], kind)

    def __add__(self, o): return self._ew(o, lambda a, b: a + b, 'num')
    def __radd__(self, o): return self._ew(o, lambda a, b: a + b, 'num', True)
    def __sub__(self, o): return self._ew(o, lambda a, b: a - b, 'num')
    def __rsub__(self, o): return self._ew(o, lambda a, b: a - b, 'num', True)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b, 'num')
    def __rmul__(self, o): return self._ew(o, lambda a, b: a * b, 'num', True)
    def __truediv__(self, o): return self._ew(o, lambda a, b: to_real(a) / to_real(b), 'real')
    def __rtruediv__(self, o): return self._ew(o, lambda a, b: to_real(a) / to_real(b), 'real', True)
    def __lt__(self, o): return self._ew(o, lambda a, b: a < b, 'cmp<')
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b, 'cmp<=')
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b, 'cmp>')
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b, 'cmp>=')
    def __eq__(self, o):
        r = self._ew(o, lambda a, b: a == b, 'cmp==')
        mem = getattr(self.buf, 'row_member', None)
        if mem is not None and self.buf.version == 0 and self.ndim == 2 and isinstance(r, Arr) and isinstance(o, (int, SymNum)) and \
                self.dims == (('ax', 0, None), ('ax', 1, None)) and z3.eq(dterm(self.shape[1]), self.buf.row_width):
            k = as_term(o)
            r.row_any = lambda e: mem(e, k)
        return r

    def __ne__(self, o): return self._ew(o, lambda a, b: a != b, 'cmp!=')
    def __and__(self, o): return self._ew(o, lambda a, b: And(a, b), 'bool')
    def __rand__(self, o): return self._ew(o, lambda a, b: And(a, b), 'bool')
    def __or__(self, o): return self._ew(o, lambda a, b: Or(a, b), 'bool')
    def __xor__(self, o): return self._ew(o, lambda a, b: z3.Xor(a, b), 'bool')

    def __invert__(self):
        if self.kind != 'bool':
            Ctx.cur.unsupported('~ on a non-boolean array')
        rd = self.reader()
        return Arr.make(self.shape, 'bool', lambda *ix: Not(rd(*ix)))

    def __neg__(self):
        rd = self.reader()
        return Arr.make(self.shape, join_kind(self.kind, 'int'), lambda *ix: -to_int(rd(*ix)))

    def __abs__(self):
        rd = self.reader()
        return Arr.make(self.shape, self.kind, lambda *ix: z3.If(rd(*ix) >= 0, rd(*ix), -rd(*ix)))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            def f(a):
                r = z3.RealVal(1) if z3.is_real(a) else z3.IntVal(1)
                for _ in range(o):
                    r = r * a
                return r
            return elementwise(f, [self], 'num')
        from . import funcs
        return elementwise(lambda a, b: funcs.power(a, b), [self, o], 'real')

    def _inplace(self, o, op):
        r = op(o)
        if r is NotImplemented:
            return r
        self[tuple([slice(None)] * self.ndim)] = r
        return self

    def __iadd__(self, o): return self._inplace(o, self.__add__)
    def __isub__(self, o): return self._inplace(o, self.__sub__)
    def __imul__(self, o): return self._inplace(o, self.__mul__)
    def __itruediv__(self, o): return self._inplace(o, self.__truediv__)

    # ---------------------------------------------------------------- reductions (defined in reduce.py)
    def sum(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('sum', self, axis)

    def mean(self, axis=None):
        from . import reduce
        n = self.size if axis is None else self.shape[axis]
        return reduce.reduce_axis('sum', self, axis) / n

    def prod(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('prod', self, axis)

    def min(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('min', self, axis)

    def max(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('max', self, axis)

    def any(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('any', self, axis)

    def all(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('all', self, axis)

    def __contains__(self, v):
        mem = getattr(self.buf, 'row_member', None)      # rows with a membership predicate of their own (a contract's)
        if mem is not None and self.ndim == 1 and self.buf.version == 0 and self.dims[0][0] == 'fix' and len(self.dims) == 2 and \
                self.dims[1] == ('ax', 0, None) and z3.eq(dterm(self.shape[0]), self.buf.row_width):
            return bool(wrap(mem(as_term(self.dims[0][1]), as_term(v))))
        return bool((self == v).any())

    def argmax(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('argmax', self, axis)

    def argmin(self, axis=None):
        from . import reduce
        return reduce.reduce_axis('argmin', self, axis)

    def dot(self, o):
        from . import reduce
        return reduce.dot(self, o)

    def __matmul__(self, o):
        from . import reduce
        return reduce.dot(self, o)

    def __rmatmul__(self, o):
        from . import reduce
        return reduce.dot(o, self)


class DType:
    def __init__(self, kind):
        self.kind = kind
        self.name = {'bool': 'bool', 'int': 'int64', 'real': 'float64'}[kind]

    def __eq__(self, o):
        return kind_of_dtype(o) == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return self.name
    __str__ = __repr__


def kind_of_dtype(dt):
    if isinstance(dt, DType):
        return dt.kind
    n = getattr(dt, '__pvname__', None) or (dt if isinstance(dt, str) else getattr(dt, '__name__', str(dt)))
    n = n.lower()
    if any(q in n for q in ('int8', 'int16', 'int32', 'uint', 'float16', 'float32', 'short', 'half', 'single')):
        Ctx.cur.unsupported('values narrowed to dtype %s' % n)
    if 'float' in n or n == 'd':
        return 'real'
    if 'bool' in n:
        return 'bool'
    if 'int' in n:
        return 'int'
    Ctx.cur.unsupported('dtype %s' % n)


def reshape(a, shape):
    shape = [s.__index__() if not isinstance(s, (int, SymNum)) else s for s in shape]
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    # drop / insert unit axes: a view
    src = [(k, d) for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    tgt = [k for k, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
    if len(src) == len(tgt) and (len(neg) == 1 and len(src) == 1 or not neg and all(
            dim_same(d, shape[k]) for (_, d), k in zip(src, tgt))
            or len(neg) == 1 and all(shape[k] == -1 or dim_same(d, shape[k]) for (_, d), k in zip(src, tgt)
                                     if not (isinstance(shape[k], int) and shape[k] == -1))):
        m = {ax: k for (ax, _), k in zip(src, tgt)}
        new = list(shape)
        for (ax, d), k in zip(src, tgt):
            if not (isinstance(shape[k], int) and shape[k] == -1) and not dim_same(d, shape[k]):
                raise ValueError('cannot reshape array')
            new[k] = d
        new = [1 if isinstance(s, int) and s == -1 else s for s in new]
        dims = []
        for d in a.dims:
            if d[0] == 'ax' and d[1] not in m:
                dims.append(('fix', z3.IntVal(0) if d[2] is None else d[2]))
            elif d[0] == 'ax':
                dims.append(('ax', m[d[1]], d[2]))
            else:
                dims.append(d)
        return Arr(a.buf, new, dims)
    # every dimension 1 -> (-1) etc.
    if not src:
        if len(neg) <= 1 and all(isinstance(s, int) and s in (1, -1) for s in shape):
            dims = [('fix', z3.IntVal(0) if d[0] == 'ax' and d[2] is None else d[-1]) for d in a.dims]
            return Arr(a.buf, [1] * len(shape), dims)
        raise ValueError('cannot reshape array')
    # trailing / leading dimension symbolic 1?
    total = a.size
    if all(isinstance(d, int) for d in a.shape) and all(isinstance(s, int) for s in shape):
        known = 1
        for s in shape:
            if s != -1:
                known *= s
        if neg:
            if known == 0 or total % known:
                raise ValueError('cannot reshape array')
            shape[neg[0]] = total // known
        elif known != total:
            raise ValueError('cannot reshape array')
        rd = a.reader()
        ash = list(a.shape)
        sh = list(shape)
        def fn(*ix):
            flat = z3.IntVal(0)
            for t, s in zip(ix, sh):
                flat = flat * s + t
            flat = z3.simplify(flat)
            out = []
            for s in reversed(ash):
                out.append(z3.simplify(flat % s))
                flat = z3.simplify(flat / s)
            return rd(*reversed(out))
        return Arr.make(sh, a.kind, fn)
    if a.ndim == 2 and len(shape) == 1:
        # one of the dimensions may be 1 on this path
        for ax in (1, 0):
            if Ctx.cur.entails(dterm(a.shape[ax]) == 1):
                b = Arr(a.buf, [1 if k == ax else d for k, d in enumerate(a.shape)], a.dims)
                return reshape(b, shape)
    if a.ndim == 2 and len(shape) == 1 and neg:
        return Carried(a, ('flat',))
    Ctx.cur.unsupported('reshape %s -> %s' % (a.shape, tuple(shape)))


class Carried:
    """a one-dimensional rearrangement of (the masked part of) an array of several dimensions: the entries keep their places"""
    __pvobject__ = True

    def __init__(self, arr, tag, mask=None):
        self.arr, self.tag, self.mask = arr, tag, mask

    def like(self, o):
        return len(o.tag) == len(self.tag) and all(x is y or (isinstance(x, (str, int)) and x == y) for x, y in zip(self.tag, o.tag)) and \
            len(o.arr.shape) == len(self.arr.shape) and all(dim_eq(x, y) for x, y in zip(self.arr.shape, o.arr.shape))

    ndim = 1

    def _ew(self, o, f, kind=None, rev=False):
        return elementwise(f, [o, self] if rev else [self, o], kind)

    def _red(self, op):
        from . import reduce
        a = self.arr
        if self.mask is not None:
            if op != 'sum':
                Ctx.cur.unsupported('%s of a masked selection' % op)
            a = elementwise(lambda m, v: z3.If(m, v, z3.RealVal(0)), [self.mask, a * 1.0], 'real')
        return wrap(reduce.reduce_all(op, a))

    def sum(self, axis=None): return self._red('sum')
    def min(self, axis=None): return self._red('min')
    def max(self, axis=None): return self._red('max')
    def all(self, axis=None): return self._red('all')
    def any(self, axis=None): return self._red('any')

    def dot(self, o):
        return (self * o).sum()
    __matmul__ = dot

    def copy(self): return Carried(self.arr.copy(), self.tag, self.mask)
    def ravel(self): return self
    def flatten(self): return self.copy()
    def __neg__(self): return Carried(-self.arr, self.tag, self.mask)
    def __abs__(self): return Carried(abs(self.arr), self.tag, self.mask)
    def __pow__(self, o): return Carried(self.arr ** o, self.tag, self.mask)


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'lt', 'le', 'gt', 'ge'):
    setattr(Carried, '__%s__' % _n, getattr(Arr, '__%s__' % _n))


def from_list(lst):
    """array from a native list of scalars or arrays"""
    if not lst:
        return Arr.make((0,), 'real', lambda i: z3.RealVal(0))
    if all(isinstance(x, (int, float, bool, SymNum, SymBool)) for x in lst):
        if any(isinstance(x, float) and (math.isinf(x) or math.isnan(x)) for x in lst):
            Ctx.cur.unsupported('non-finite array element')
        ts = [as_term(x) for x in lst]
        k = ts[0]
        kind = kind_of_term(ts[0])
        for t in ts[1:]:
            kind = join_kind(kind, kind_of_term(t))
        ts = [cast(t, kind) for t in ts]
        def fn(i):
            i = z3.simplify(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(ts):
                return ts[i.as_long()]
            r = ts[-1]
            for j in range(len(ts) - 2, -1, -1):
                r = z3.If(i == j, ts[j], r)
            return r
        return Arr.make((len(lst),), kind, fn)
    rows = [toarr(x) for x in lst]
    kind = rows[0].kind
    for r in rows[1:]:
        kind = join_kind(kind, r.kind)
        if r.ndim != rows[0].ndim or not all(dim_eq(a, b) for a, b in zip(r.shape, rows[0].shape)):
            raise ValueError('inhomogeneous array')
    rds = [r.reader() for r in rows]
    def fn2(i, *ix):
        i = z3.simplify(i)
        if z3.is_int_value(i) and 0 <= i.as_long() < len(rds):
            return cast(rds[i.as_long()](*ix), kind)
        r = cast(rds[-1](*ix), kind)
        for j in range(len(rds) - 2, -1, -1):
            r = z3.If(i == j, cast(rds[j](*ix), kind), r)
        return r
    return Arr.make((len(rows),) + rows[0].shape, kind, fn2)


def toarr(x):
    from .collections_ import SymList
    if isinstance(x, Arr):
        return x
    if isinstance(x, SymList):
        return x.toarr()
    if isinstance(x, (list, tuple, range)):
        return from_list(list(x))
    if isinstance(x, (int, float, bool, SymNum, SymBool)):
        t = as_term(x)
        return Arr.make((), kind_of_term(t), lambda: t)
    Ctx.cur.unsupported('array from %s' % type(x).__name__)


def bcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[k - n + len(s)] for s in shapes if k - n + len(s) >= 0]
        r = 1
        for d in ds:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = d
                continue
            if dim_eq(r, d):
                continue
            c = Ctx.cur
            if not isinstance(d, int) and c.branch(dterm(d) == 1):
                continue
            if not isinstance(r, int) and c.branch(dterm(r) == 1):
                r = d
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(r)
    return out


def bcast_reader(x, shape):
    """reader of x broadcast to shape (checks compatibility)"""
    if isinstance(x, (int, float, bool, SymNum, SymBool)):
        t = as_term(x)
        return lambda *ix: t
    x = toarr(x)
    if x.ndim > len(shape):
        extra = x.shape[:x.ndim - len(shape)]
        if not all(isinstance(d, int) and d == 1 for d in extra):
            raise ValueError('could not broadcast input array')
        x = x.reshape(*x.shape[x.ndim - len(shape):])
    off = len(shape) - x.ndim
    one = []
    for k, d in enumerate(x.shape):
        t = shape[k + off]
        if isinstance(d, int) and d == 1 and not (isinstance(t, int) and t == 1):
            one.append(True)
        elif dim_eq(d, t):
            one.append(False)
        elif not isinstance(d, int) and Ctx.cur.branch(dterm(d) == 1):
            one.append(True)
        else:
            raise ValueError('could not broadcast input array')
    rd = x.reader()
    return lambda *ix: rd(*[z3.IntVal(0) if o else t for o, t in zip(one, ix[off:])])


def elementwise(f, args, kind=None):
    """f on terms, broadcast; kind: 'num' | 'real' | 'bool' | 'cmpOP' | None (keep)"""
    if kind and kind.startswith('cmp'):
        # comparison with an infinite scalar is constant
        for k, a in enumerate(args):
            if isinstance(a, float) and (math.isinf(a) or math.isnan(a)):
                o = toarr(args[1 - k])
                from .core import _inf_cmp
                op = kind[3:]
                if k == 0:
                    op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                v = z3.BoolVal(_inf_cmp(op, a))
                return Arr.make(o.shape, 'bool', lambda *ix: v)
        if any(isinstance(a, (str, type(None))) for a in args):
            return kind == 'cmp!='
    car = [a for a in args if isinstance(a, Carried)]
    if car:
        if any(not (a.like(car[0]) if isinstance(a, Carried) else isinstance(a, (int, float, bool, SymNum, SymBool))) for a in args):
            Ctx.cur.unsupported('flattened or masked entries against an array')
        return Carried(elementwise(f, [a.arr if isinstance(a, Carried) else a for a in args], kind), car[0].tag, car[0].mask)
    arrs = [toarr(a) for a in args]
    shape = bcast_shapes([a.shape for a in arrs])
    rds = [bcast_reader(a, shape) for a in arrs]
    kinds = [a.kind for a in arrs]
    if kind is None or kind == 'num':
        k = kinds[0]
        for q in kinds[1:]:
            k = join_kind(k, q)
        if kind == 'num':
            k = join_kind(k, 'int')
    elif kind.startswith('cmp') or kind == 'bool':
        k = 'bool'
    else:
        k = kind
    def fn(*ix):
        ts = [r(*ix) for r in rds]
        if kind == 'bool':
            ts = [t if z3.is_bool(t) else t != 0 for t in ts]
        elif kind == 'cmp==' and all(z3.is_bool(t) for t in ts):
            pass
        elif len(ts) == 2:
            ts = list(coerce2(*ts))
        else:
            ts = [to_int(t) for t in ts]
        r = f(*ts)
        return cast(r, k)
    if not shape:
        return wrap(z3.simplify(fn()))
    return Arr.make(shape, k, fn)


def check_index_range(idx, n):
    """every entry of an index array lies in [-n, n) - otherwise numpy raises IndexError"""
    c = Ctx.cur
    g, m = idx.reader(), dterm(idx.shape[0])
    if isinstance(idx.shape[0], int):
        for j in range(idx.shape[0]):
            t = g(z3.IntVal(j))
            if not c.branch(And(t < n, t >= -n)):
                raise IndexError('index out of bounds')
        return
    forall_or_raise(m, lambda j: And(g(j) < n, g(j) >= -n), lambda: IndexError('index out of bounds'))


def forall_or_raise(m, ok, exc):
    """case split: ok(j) for every 0 <= j < m, or some entry violates it and exc() is raised"""
    c = Ctx.cur
    q = Forall([Int], lambda j: Implies(And(j >= 0, j < m), ok(j)))
    if c.entails(q):
        return
    if c.choose(2) == 0:
        c.assume(q)
        return
    w = c.const('bad', Int)
    c.assume(w >= 0, w < m, Not(ok(w)))
    raise exc()


def own_terms(t, i):
    """the smallest uninterpreted applications in t that contain i"""
    out, seen = {}, set()

    def go(x):
        """whether x contains i"""
        if x.eq(i):
            return True
        if not z3.is_app(x):
            return False
        cs = [go(y) for y in x.children()]
        if any(cs) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in seen:
            seen.add(x.get_id())
            if any(y.eq(i) for y in x.children()):
                out[x.get_id()] = x
        return any(cs)
    go(z3.simplify(t))
    return list(out.values())[:3]


def mask_select(a, with_rank=False):
    """positions selected by a 1-D boolean mask, in increasing order"""
    c = Ctx.cur
    m, n = a.reader(), dterm(a.shape[0])
    key = ('sel', c.tid(n), c.tid(z3.simplify(m(z3.Const('maskkey', Int)))))
    if c.sub or key not in c.memo:
        cnt = c.const('cnt', Int)
        sel, rank = c.func('sel', Int, Int), c.func('rank', Int, Int)
        c.assume(cnt >= 0, cnt <= n)
        c.assume(Forall([Int], lambda j: Implies(And(j >= 0, j < cnt),
                                                 And(sel(j) >= 0, sel(j) < n, m(sel(j)), rank(sel(j)) == j)),
                        lambda j: [sel(j)]))
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < n, m(i)),
                                                 And(rank(i) >= 0, rank(i) < cnt, sel(rank(i)) == i)),
                        lambda i: [rank(i)]))
        c.assume(Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < j, j < cnt), sel(i) < sel(j)),
                        lambda i, j: [z3.MultiPattern(sel(i), sel(j))]))
        # connect the mask's own terms with rank (trigger on whatever uninterpreted terms the mask contains)
        hs = lambda i: own_terms(m(i), i)
        try:
            c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < n, m(i)),
                                                     And(rank(i) >= 0, rank(i) < cnt, sel(rank(i)) == i)),
                            (lambda i: hs(i)) if hs(z3.Const('maskkey', Int)) else None))
        except z3.Z3Exception:
            pass
        # extremes: nothing selected / everything selected
        c.assume(Implies(cnt == 0, Forall([Int], lambda i: Implies(And(i >= 0, i < n), Not(m(i))))))
        w = c.const('unsel', Int)
        c.assume(Or(cnt == n, And(w >= 0, w < n, Not(m(w)))))
        c.assume(Implies(cnt == n, Forall([Int], lambda i: Implies(And(i >= 0, i < n), And(m(i), sel(i) == i)))))
        res = (sel, dim_wrap(cnt), rank)
        if not c.sub:
            c.memo[key] = res
            r = c.memo.setdefault('boolsums', {}).get(key)
            if r is not None:
                c.assume(r == cnt)
    else:
        res = c.memo[key]
    sel, cnt, rank = res
    return (sel, cnt, rank) if with_rank else (sel, cnt)
