"""Symbolic lists, sets, dictionaries, ranges and the lazy sequences built from them."""
import z3

from .core import (Ctx, SymBool, SymNum, And, Forall, If, Implies, Int, Not, Or, as_term, ite, num_term, wrap, Bool,
                   Real, Exists, usable_pattern)
from .arrays import Arr, Cell, Buf, dim_wrap, dterm, kind_of_term, SORT, dim_eq, dim_same


class Seq:
    """Protocol of symbolic sequences: n (int or SymNum) and elem(term) -> value."""


def is_symbolic_seq(x):
    if isinstance(x, Arr):
        return not isinstance(x.shape[0], int)
    if isinstance(x, SymList):
        return x.items is None
    return isinstance(x, (SymRange, SymZip, SymEnum, SymSet, SymDict, SymDictItems, GenExp, SymMap))


def as_seq(x):
    """(n, elem) of anything iterable that the engine knows"""
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if x.ndim == 1:
            rd = x.reader()
            return x.shape[0], lambda i: wrap(z3.simplify(rd(i)))
        return x.shape[0], lambda i: Arr(x.buf, x.shape[1:], _row_dims(x, i))
    if isinstance(x, (SymList, SymRange, SymZip, SymEnum, SymMap)):
        return x.n, x.elem
    if isinstance(x, SymSet):
        return as_seq(x.tolist())
    if isinstance(x, SymDictItems):
        return as_seq(x.tolist())
    if isinstance(x, SymDict):
        return as_seq(x.keyset().tolist())
    if isinstance(x, GenExp):
        return as_seq(x.force())
    if isinstance(x, (list, tuple, range)):
        lst = list(x)
        return len(lst), lambda i: pick(lst, i)
    Ctx.cur.unsupported('iteration over %s' % type(x).__name__)


def _row_dims(x, i):
    out = []
    for d in x.dims:
        if d[0] == 'fix':
            out.append(d)
        elif d[1] == 0:
            out.append(('fix', i if d[2] is None else i + d[2]))
        else:
            out.append(('ax', d[1] - 1, d[2]))
    return out


def pick(lst, i):
    i = z3.simplify(as_term(i))
    if z3.is_int_value(i):
        return lst[i.as_long()]
    for k in range(len(lst) - 1):
        if Ctx.cur.branch(i == k):
            return lst[k]
    return lst[-1]


def scalar(v):
    return isinstance(v, (bool, int, float, SymNum, SymBool)) and not (isinstance(v, float) and (v != v or v in (
        float('inf'), float('-inf'))))


def merge(c, a, b):
    """value equal to a when c else b"""
    if scalar(a) and scalar(b):
        return ite(c, a, b)
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.kind == b.kind and all(
            dim_same(p, q) for p, q in zip(a.shape, b.shape)):
        t, ra, rb = as_term(c), a.reader(), b.reader()
        return Arr.make(a.shape, a.kind, lambda *ix: If(t, ra(*ix), rb(*ix)))
    return a if Ctx.cur.branch(as_term(c)) else b


class SymList(Cell):
    """Python list: concrete items, or symbolic length with an element function."""

    def __init__(self, items=()):
        self.items = list(items)
        self._n = self._fn = None
        self.tail = None
        self._init_cell()

    @staticmethod
    def of(n, fn):
        r = SymList()
        if isinstance(n, int):
            r.items = [fn(z3.IntVal(i)) for i in range(n)]
        else:
            r.items, r._n, r._fn = None, n, fn
        return r

    @property
    def n(self):
        return len(self.items) if self.items is not None else self._n

    def elem(self, i):
        if self.items is not None:
            return pick(self.items, i)
        return self._fn(as_term(i))

    def toarr(self):
        from .arrays import from_list, kind_of_term
        if self.items is not None:
            return from_list(self.items)
        probe = self._fn(z3.Const('probe', Int))
        if isinstance(probe, Arr):
            fn = self._fn
            return Arr.make((self._n,) + probe.shape, probe.kind, lambda i, *ix: fn(i).at(*ix))
        if not scalar(probe):
            Ctx.cur.unsupported('array from a symbolic list of %s' % type(probe).__name__)
        kind = kind_of_term(as_term(probe))
        fn = self._fn
        r = Arr.make((self._n,), kind, lambda i: as_term(fn(i)))
        r.enum_of = getattr(self, 'enum_of', None)
        return r

    def _sym(self):
        if self.items is not None:
            lst = list(self.items)
            self._n, self._fn = len(lst), (lambda i: pick(lst, i))
            self.items = None

    # -- python list API
    def __pvlen__(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        Ctx.cur.unsupported('native len() of a symbolic list')

    def __bool__(self):
        return bool(wrap(z3.simplify(dterm(self.n) > 0)))

    def __iter__(self):
        if self.items is not None:
            return iter(list(self.items))
        Ctx.cur.unsupported('native iteration over a symbolic list')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.items is not None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return SymList(self.items[i])
            a = Arr.make((self.n,), 'int', lambda j: j)
            off, ln = a._norm_slice(i, 0)
            el, o = self.elem, dterm(off)
            return SymList.of(ln, lambda j: el(j + o))
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        dummy = Arr.make((self.n,), 'int', lambda j: j)
        return self.elem(dummy._norm_index(i, 0))

    def __setitem__(self, i, v):
        if self.items is not None and isinstance(i, int):
            self.items[i] = v
            self.touch()
            return
        dummy = Arr.make((self.n,), 'int', lambda j: j)
        p = dummy._norm_index(i, 0)
        old = self.elem
        n = self.n
        self._sym()
        fn0 = self._fn
        self._fn = lambda j: merge(j == p, v, fn0(j))
        self.touch()

    def append(self, v):
        if self.items is not None:
            self.items.append(v)
        else:
            n0, f0 = dterm(self._n), self._fn
            self._n = dim_wrap(n0 + 1)
            if isinstance(v, SymSet):
                if getattr(self, 'mem2', None) is None or v.owner is not None:
                    Ctx.cur.unsupported('append of a set to a symbolic list of other values')
                old, new = self.mem2, v.mem
                self.set_members(lambda j, x: If(j == n0, new(x), old(j, x)))
                m2, c = self.mem2, Ctx.cur
                if not c.sub:
                    c.assume(Forall([Int], lambda x: m2(n0, x) == new(x), lambda x: [new(x)]))
                v.owner = (self, n0)
                self.touch()
                return
            def fn(i):
                i = z3.simplify(as_term(i))
                if i.eq(z3.simplify(n0)):
                    return v
                if Ctx.cur.entails(i < n0):
                    return f0(i)
                return merge(i == n0, v, f0(i))
            self._fn = fn
        self.touch()

    def extend(self, o):
        n2, e2 = as_seq(o)
        if self.items is not None and isinstance(n2, int):
            self.items.extend(e2(z3.IntVal(i)) for i in range(n2))
        elif self.items is not None and not self.items:
            self.items, self._n, self._fn = None, n2, e2
        else:
            self._sym()
            n0, f0 = dterm(self._n), self._fn
            self._n = dim_wrap(n0 + dterm(n2))
            self._fn = lambda i: merge(i < n0, f0(i), e2(i - n0))
        self.touch()

    def insert(self, i, v):
        if self.items is not None and isinstance(i, int):
            self.items.insert(i, v)
            self.touch()
            return
        Ctx.cur.unsupported('insert into a symbolic list')

    def pop(self, *a):
        if self.items is not None:
            r = self.items.pop(*a)
            self.touch()
            return r
        Ctx.cur.unsupported('pop from a symbolic list')

    def copy(self):
        r = SymList()
        r.items = None if self.items is None else list(self.items)
        r._n, r._fn = self._n, self._fn
        return r

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __mul__(self, k):
        if self.items is not None and isinstance(k, int):
            return SymList(self.items * k)
        if self.items is not None and len(self.items) == 1:
            v = self.items[0]
            kt = num_term(k)
            return SymList.of(dim_wrap(z3.If(kt >= 0, kt, z3.IntVal(0))), lambda i: v)
        Ctx.cur.unsupported('list repetition')
    __rmul__ = __mul__

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        if self.items is not None:
            return SymList(list(o) + self.items)
        head, k = list(o), len(o)
        old = self._fn
        if k == 1:
            def elem(i):
                j = z3.simplify(i)
                if z3.is_int_value(j):
                    return head[0] if j.as_long() == 0 else old(z3.simplify(j - 1))
                return merge(i == 0, head[0], old(z3.simplify(i - 1)))
            return SymList.of(self._n + k, elem)
        Ctx.cur.unsupported('concatenation of a list and a list of symbolic length')

    def __contains__(self, v):
        if self.items is not None:
            return any(x is v or bool(x == v) for x in self.items)
        t = as_term(v)
        return bool(SymBool(Exists([Int], lambda i: And(i >= 0, i < dterm(self.n), as_term(self.elem(i)) == t))))

    def __eq__(self, o):
        if isinstance(o, (SymList, list)):
            a, b = as_seq(self), as_seq(o)
            if not dim_eq(a[0], b[0]):
                return False
            if isinstance(a[0], int):
                r = True
                for k in range(a[0]):
                    r = r & (a[1](z3.IntVal(k)) == b[1](z3.IntVal(k))) if r is not True else (
                        a[1](z3.IntVal(k)) == b[1](z3.IntVal(k)))
                return r
            c = Ctx.cur
            eq = c.const('listeq', Bool)
            w = c.const('w', Int)
            n = dterm(a[0])
            c.assume(Implies(eq, Forall([Int], lambda i: Implies(And(i >= 0, i < n), as_term(a[1](i) == b[1](i))))))
            c.assume(Or(eq, And(w >= 0, w < n, Not(as_term(a[1](w) == b[1](w))))))
            return SymBool(eq)
        return False

    __hash__ = None

    def __repr__(self):
        return 'SymList(%s)' % (self.items if self.items is not None else self._n)

    def __format__(self, s):
        return repr(self)

    def set_members(self, mem2):
        """contents: sets given by mem2(index, element); elements are references into the list"""
        mem2 = named(mem2, 2)
        def fn(i):
            if self.dead:
                Ctx.cur.unsupported('a list of sets read after its elements were modified through a copy of the list')
            i = as_term(i)
            r = SymSet(lambda x: mem2(i, x))
            r.owner = (self, i)
            return r
        self.mem2 = mem2
        self._fn = fn

    dead, parent, shared = False, None, False

    def write_set(self, i, mem):
        if self.shared:
            Ctx.cur.unsupported('a set modified through a list after the list was copied')
        if self.parent is not None:
            self.parent.dead = True
        old = self.mem2
        self.set_members(lambda j, x: If(j == i, mem(x), old(j, x)))
        self.touch()

    def havoc_as(self, kind):
        c = Ctx.cur
        n = SymNum(c.const('n', Int))
        c.assume(n.t >= 0)
        self.items, self._n = None, n
        if kind in SORT:
            f = c.func('el', Int, SORT[kind])
            self._fn = lambda i: wrap(f(i))
        elif kind == 'set':
            f = c.func('elset', Int, Int, Bool)
            self.set_members(lambda i, x: f(i, x))
        elif callable(kind):
            self._fn = kind(c)
        else:
            c.unsupported('cannot generalise a list of %s' % (kind,))
        self.touch()


class SymRange(Seq):
    def __init__(self, a, b):
        self.a = a
        at, bt = num_term(a), num_term(b)
        self.n = dim_wrap(z3.If(bt > at, bt - at, z3.IntVal(0)))
        if Ctx.cur.entails(bt >= at):
            self.n = dim_wrap(bt - at)

    def elem(self, i):
        return wrap(z3.simplify(num_term(self.a) + as_term(i)))

    def __iter__(self):
        Ctx.cur.unsupported('native iteration over a symbolic range')

    def __pvlen__(self):
        return self.n


class SymZip(Seq):
    def __init__(self, seqs):
        self.seqs = [as_seq(s) for s in seqs]
        n = self.seqs[0][0]
        for s in self.seqs[1:]:
            if not dim_same(n, s[0]):
                if Ctx.cur.branch(dterm(s[0]) < dterm(n)):
                    n = s[0]
        self.n = n

    def elem(self, i):
        return tuple(s[1](i) for s in self.seqs)


class SymEnum(Seq):
    def __init__(self, seq, start=0):
        self.n, self.e = as_seq(seq)
        self.start = start

    def elem(self, i):
        return (wrap(z3.simplify(as_term(i) + num_term(self.start))), self.e(i))


class SymMap(Seq):
    def __init__(self, n, fn):
        self.n, self.elem = n, fn

    def __pvlen__(self):
        return self.n


class GenExp(Seq):
    """Lazy generator expression over a symbolic sequence."""

    def __init__(self, seq, elt, conds):
        self.seq, self.elt, self.conds = seq, elt, conds
        self._forced = None

    def force(self):
        if self._forced is None:
            from .loops import listcomp_symbolic
            self._forced = listcomp_symbolic(self.seq, self.elt, self.conds)
        return self._forced

    def __iter__(self):
        Ctx.cur.unsupported('native iteration over a symbolic generator expression')


def named(mem, arity):
    """a membership predicate with a name of its own: a fresh function defined by the predicate, so that quantifiers over
    the members have something to be instantiated on"""
    c = Ctx.cur
    if c.sub:
        return mem
    vs = [z3.Const('named%d' % k, Int) for k in range(arity)]
    t = z3.simplify(mem(*vs))
    ids = {v.get_id() for v in vs}
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and len(t.children()) >= arity and all(
            a.eq(v) for a, v in zip(t.children()[-arity:], vs)):
        return mem
    subs, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if usable_pattern(x, vs):
            subs.append(x)
            continue
        stack.extend(x.children())
    if not seen & ids:
        return mem
    f = c.func('m', *([Int] * arity), Bool)
    app = f(*vs)
    for pat in [app] + [x for x in subs if z3.is_bool(x)]:
        c.assume(z3.ForAll(vs, app == t, patterns=[pat]))
    return lambda *ix: f(*ix)


class SymSet(Cell):
    """Set of integers (or of values encoded as integers) given by its membership predicate."""

    def __init__(self, mem=None, view=None):
        self.mem = mem or (lambda x: z3.BoolVal(False))
        self.owner = None        # (list, index): an element of a symbolic list of sets, writes go back to the list
        self._init_cell()

    def frozen(self):
        r = SymSet(self.mem)
        return r

    def has(self, x):
        return self.mem(num_term(x))

    def _write(self, mem):
        mem = named(mem, 1)
        self.mem = mem
        self.touch()
        if self.owner is not None:
            lst, i = self.owner
            lst.write_set(i, mem)

    def havoc(self):
        f = Ctx.cur.func('set', Int, Bool)
        self._write(lambda x: f(x))

    @staticmethod
    def from_seq(s):
        if isinstance(s, SymSet):
            return SymSet(s.mem)
        n, e = as_seq(s)
        c = Ctx.cur
        if isinstance(n, int):
            ts = [num_term(e(z3.IntVal(i))) for i in range(n)]
            return SymSet(lambda x: Or([x == t for t in ts]) if ts else z3.BoolVal(False))
        nt = dterm(n)
        et = lambda i: num_term(e(i))
        mem, pos = c.func('mem', Int, Bool), c.func('pos', Int, Int)
        c.assume(Forall([Int], lambda x: Implies(mem(x), And(pos(x) >= 0, pos(x) < nt, et(pos(x)) == x)),
                        lambda x: [mem(x)]))
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < nt), mem(et(i)))))
        return SymSet(lambda x: mem(x))

    # -- python API
    def __contains__(self, x):
        return bool(wrap(z3.simplify(self.has(x))))

    def card(self):
        c = Ctx.cur
        key = ('card', c.tid(z3.simplify(self.mem(z3.Const('cardkey', Int)))))
        if not c.sub and key in c.memo:
            return c.memo[key]
        m = self.mem
        n, w, w2 = c.const('card', Int), c.const('w', Int), c.const('w2', Int)
        c.assume(n >= 0,
                 Implies(n == 0, Forall([Int], lambda x: Not(m(x)))),
                 Implies(n >= 1, m(w)),
                 Implies(n == 1, Forall([Int], lambda x: Implies(m(x), x == w))),
                 Implies(n >= 2, And(m(w2), w2 != w)))
        r = wrap(n)
        if not c.sub:
            c.memo[key] = r
        return r

    def __pvlen__(self):
        return self.card()

    def __bool__(self):
        return bool(self.card() > 0)

    def __iter__(self):
        Ctx.cur.unsupported('native iteration over a symbolic set')

    def add(self, x):
        t, m = num_term(x), self.mem
        self._write(lambda y: Or(y == t, m(y)))

    def discard(self, x):
        t, m = num_term(x), self.mem
        self._write(lambda y: And(y != t, m(y)))

    def remove(self, x):
        if not self.__contains__(x):
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self._write(lambda y: z3.BoolVal(False))

    def _other(self, o):
        return o if isinstance(o, SymSet) else SymSet.from_seq(o)

    def update(self, *os):
        for o in os:
            a, b = self.mem, self._other(o).mem
            self._write(lambda y, a=a, b=b: Or(a(y), b(y)))

    def difference_update(self, o):
        a, b = self.mem, self._other(o).mem
        self._write(lambda y: And(a(y), Not(b(y))))

    def intersection_update(self, o):
        a, b = self.mem, self._other(o).mem
        self._write(lambda y: And(a(y), b(y)))

    def union(self, o):
        a, b = self.mem, self._other(o).mem
        return SymSet(named(lambda y: Or(a(y), b(y)), 1))
    __or__ = union

    def intersection(self, o):
        a, b = self.mem, self._other(o).mem
        return SymSet(named(lambda y: And(a(y), b(y)), 1))
    __and__ = intersection

    def difference(self, o):
        a, b = self.mem, self._other(o).mem
        return SymSet(named(lambda y: And(a(y), Not(b(y))), 1))
    __sub__ = difference

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def _rel(self, q, bad):
        c = Ctx.cur
        r, w = c.const('rel', Bool), c.const('w', Int)
        c.assume(Implies(r, Forall([Int], q)), Or(r, bad(w)))
        return wrap(r)

    def issubset(self, o):
        a, b = self.mem, self._other(o).mem
        return self._rel(lambda x: Implies(a(x), b(x)), lambda w: And(a(w), Not(b(w))))
    __le__ = issubset

    def issuperset(self, o):
        return self._other(o).issubset(self)
    __ge__ = issuperset

    def isdisjoint(self, o):
        a, b = self.mem, self._other(o).mem
        return self._rel(lambda x: Not(And(a(x), b(x))), lambda w: And(a(w), b(w)))

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        a, b = self.mem, self._other(o).mem
        return self._rel(lambda x: a(x) == b(x), lambda w: a(w) != b(w))

    __hash__ = None

    def copy(self):
        return SymSet(self.mem)

    def tolist(self):
        """an enumeration without repetition, in arbitrary order"""
        c = Ctx.cur
        m = self.mem
        n = self.card()
        e, pos = c.func('enum', Int, Int), c.func('epos', Int, Int)
        nt = dterm(n)
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < nt), And(m(e(i)), pos(e(i)) == i)), lambda i: [e(i)]))
        c.assume(Forall([Int], lambda x: Implies(m(x), And(pos(x) >= 0, pos(x) < nt, e(pos(x)) == x)),
                        lambda x: [pos(x)]))
        try:
            c.assume(Forall([Int], lambda x: Implies(m(x), And(pos(x) >= 0, pos(x) < nt, e(pos(x)) == x))))
        except z3.Z3Exception:
            pass
        r = SymList.of(n, lambda i: wrap(e(i)))
        if isinstance(r, SymList) and r.items is None:
            r.enum_of = m
        return r

    def __repr__(self):
        return 'SymSet'

    def __format__(self, s):
        return 'SymSet'


class SymDict(Cell):
    """dict with integer keys: domain predicate and a value function; string-keyed dictionaries stay native."""

    def __init__(self, dom=None, val=None, concrete=None):
        self.dom = dom or (lambda k: z3.BoolVal(False))
        self.val = val
        self._init_cell()

    @property
    def kind(self):
        return None

    def _write(self, dom, val):
        self.dom, self.val = dom, val
        self.touch()

    def havoc_as(self, kind):
        c = Ctx.cur
        d = c.func('dom', Int, Bool)
        if kind in SORT:
            v = c.func('val', Int, SORT[kind])
            self._write(lambda k: d(k), lambda k: wrap(v(k)))
        else:
            c.unsupported('cannot generalise a dict of %s' % (kind,))

    @staticmethod
    def from_pairs(n, key, val):
        """{key(i): val(i) for i < n}: later entries win"""
        c = Ctx.cur
        nt = dterm(n)
        last, dom = c.func('last', Int, Int), c.func('dom', Int, Bool)
        kt = lambda i: num_term(key(i))
        c.assume(Forall([Int], lambda i: Implies(And(i >= 0, i < nt), And(dom(kt(i)), last(kt(i)) >= i))))
        c.assume(Forall([Int], lambda k: Implies(dom(k), And(last(k) >= 0, last(k) < nt, kt(last(k)) == k)),
                        lambda k: [dom(k)]))
        c.assume(Forall([Int], lambda k: Implies(dom(k), And(last(k) >= 0, last(k) < nt, kt(last(k)) == k)),
                        lambda k: [last(k)]))
        d = SymDict(lambda k: dom(k), lambda k: val(last(k)))
        # the defining fact of one pair (for contracts whose key terms no trigger matches)
        d.instance = lambda i: c.assume(Implies(And(i >= 0, i < nt), And(dom(kt(i)), last(kt(i)) >= i, last(kt(i)) < nt,
                                                                         kt(last(kt(i))) == kt(i))))
        return d

    def __contains__(self, k):
        return bool(wrap(z3.simplify(self.dom(num_term(k)))))

    def __getitem__(self, k):
        t = num_term(k)
        if not Ctx.cur.branch(self.dom(t)):
            raise KeyError(k)
        return self.val(t)

    def get(self, k, default=None):
        t = num_term(k)
        return self.val(t) if Ctx.cur.branch(self.dom(t)) else default

    def __setitem__(self, k, v):
        t, d, f = num_term(k), self.dom, self.val
        self._write(lambda q: Or(q == t, d(q)), lambda q: v if f is None else merge(z3.simplify(q == t), v, f(q)))

    def keyset(self):
        return SymSet(self.dom)

    def keys(self):
        return self.keyset()

    def items(self):
        return SymDictItems(self)

    def values(self):
        n, e = as_seq(self.keyset().tolist())
        return SymMap(n, lambda i: self.val(num_term(e(i))))

    def __pvlen__(self):
        return self.keyset().card()

    def __iter__(self):
        Ctx.cur.unsupported('native iteration over a symbolic dict')

    def __bool__(self):
        return bool(self.keyset())

    def __repr__(self):
        return 'SymDict'


class SymDictItems(Seq):
    def __init__(self, d):
        self.d = d

    def tolist(self):
        n, e = as_seq(self.d.keyset().tolist())
        return SymMap(n, lambda i: (e(i), self.d.val(num_term(e(i)))))
