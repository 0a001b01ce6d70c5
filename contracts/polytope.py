"""Contracts of active_learning/dsm/polytope.py, dsm/model.py and dsm/convex (C10, C11, C12, C13)."""
from .common import *

MOD = 'aideme.active_learning.dsm.polytope'

FUNCTIONS = {
    'C11': ['MultiSetPolytope.__init__', 'MultiSetPolytope.is_valid', 'MultiSetPolytope.clear', 'MultiSetPolytope.predict',
            'MultiSetPolytope.update', 'MultiSetPolytope.__update_single', 'MultiSetPolytope.__update_positive_set',
            'MultiSetPolytope.__update_negative_set'],
    'C10': ['CategoricalPolytope.__init__', 'CategoricalPolytope.is_valid', 'CategoricalPolytope.clear', 'CategoricalPolytope.predict',
            'CategoricalPolytope._predict_single', 'CategoricalPolytope.update', 'CategoricalPolytope._update_single'],
    'C12': ['Polytope.__init__', 'Polytope.is_valid', 'Polytope.clear', 'Polytope.predict', 'Polytope.update', 'Polytope.__update_positive',
            'Polytope.__update_negative', 'PositiveRegion.*', 'NegativeCone.*', 'Cache.*', 'OneDimensionalConvexHull.*', 'OneDimensionalConvexCone.*'],
}
ASSUMPTIONS = {
    'C11': ['rows are 0-1 encodings of the item sets, all of the width the polytope was first used with',
            'lemma about finite sums (pyvc/reduce.py partial_sum_lemma)'],
    'C12': ['points are finite reals (no NaN or infinities)'],
    'C10': ['a category is the position of the largest entry of the row (numpy argmax)'],
}


def obj_of(cls):
    return cls.__new__(cls)


def raised(fn, *exc):
    try:
        return fn(), None
    except exc as e:
        return None, e


# ------------------------------------------------------------------------------------------------ C10
def units_C10(E):
    us = []

    def setup(valid=None):
        P = E.load(MOD)
        o = obj_of(P.CategoricalPolytope)
        o.__init__()
        p, n = ctx().func('pos', Int, Bool), ctx().func('neg', Int, Bool)
        for nm in ('_pos_classes', '_neg_classes'):
            if not isinstance(getattr(o, nm, None), SymSet):
                ctx().unsupported('the representation of CategoricalPolytope has no set %s' % nm)
        o._pos_classes, o._neg_classes = SymSet(lambda k: p(k)), SymSet(lambda k: n(k))
        v = symbool('valid') if valid is None else valid
        priv(o, 'CategoricalPolytope', 'is_valid')
        setpriv(o, 'CategoricalPolytope', 'is_valid', v)
        assume(t_(v) == Forall([Int], lambda k: Not(And(p(k), n(k))), lambda k: [p(k), n(k)]))
        w = ctx().const('both', Int)
        assume(Or(t_(v), And(p(w), n(w))))
        ctx().roots.append(('polytope', o))
        return o, p, n, v

    def batch():
        m, d = size('m'), size('d', 1)
        X, y = mat('X', m, d), vec('y', m)
        # the category of a row: the position of its largest entry (numpy's argmax is the definition)
        am = X.argmax(axis=1).reader()
        cat = lambda i: am(i)
        return m, d, X, y, cat

    def d_init():
        P = E.load(MOD)
        o = P.CategoricalPolytope()
        m, d, X, y, cat = batch()
        r = o.predict(X)
        rr = r.reader()
        prove('a new polytope is valid', t_(o.is_valid))
        prove('a new polytope knows nothing', And(dterm(r.shape[0]) == m.t, forall(0, m.t, lambda i: rr(i) == z3.Q(1, 2))))
    us.append(Unit(E, 'CategoricalPolytope.__init__', d_init))

    def d_clear():
        o, p, n, v = setup()
        o.clear()
        m, d, X, y, cat = batch()
        r = o.predict(X)
        rr = r.reader()
        prove('a reset polytope is valid', t_(o.is_valid))
        prove('a reset polytope knows nothing', forall(0, m.t, lambda i: rr(i) == z3.Q(1, 2)))
        prove('nothing is remembered', And(forall_k(lambda k: Not(o._pos_classes.has(k))), forall_k(lambda k: Not(o._neg_classes.has(k)))))
    us.append(Unit(E, 'CategoricalPolytope.clear', d_clear))

    def d_predict():
        o, p, n, v = setup()
        m, d, X, y, cat = batch()
        r = o.predict(X)
        rr = r.reader()
        prove('one answer per row', dterm(r.shape[0]) == m.t)
        i = ctx().const('i', Int)
        assume(i >= 0, i < m.t)
        k = cat(i)
        prove('an invalid polytope answers unknown', Implies(Not(t_(v)), rr(i) == z3.Q(1, 2)))
        prove('positive exactly for the positive categories', Implies(t_(v), (rr(i) == 1) == p(k)))
        prove('negative exactly for the negative categories', Implies(t_(v), (rr(i) == 0) == n(k)))
        prove('unknown otherwise', Implies(And(t_(v), Not(p(k)), Not(n(k))), rr(i) == z3.Q(1, 2)))
        prove('answering changes nothing', forall_k(lambda q: And(o._pos_classes.has(q) == p(q), o._neg_classes.has(q) == n(q))))
        cover('answer')
    us.append(Unit(E, 'CategoricalPolytope.predict', d_predict))

    cell = {}

    def upd_inv(L, t, g):
        o, p, n, cat, ry = (cell[k] for k in ('o', 'p', 'n', 'cat', 'ry'))
        given = lambda k, pos: Exists([Int], lambda i: And(i >= 0, i < t, cat(i) == k, (ry(i) == 1) == z3.BoolVal(pos)), lambda i: [cat(i)])
        out = []
        for nm, s, s0, pos in (('positive', o._pos_classes, p, True), ('negative', o._neg_classes, n, False)):
            out.append(('%s categories are kept' % nm, forall_k(lambda k: Implies(s0(k), s.has(k)), lambda k: [s0(k)])))
            out.append(('%s labels are stored' % nm, forall(0, t, lambda i: Implies((ry(i) == 1) == z3.BoolVal(pos), s.has(cat(i))),
                                                           lambda i: [cat(i)])))
            out.append(('nothing else is %s' % nm, forall_k(lambda k: Implies(s.has(k), Or(s0(k), given(k, pos))))))
        return out

    def d_update():
        o, p, n, v = setup()
        m, d, X, y, cat = batch()
        ry = y.reader()
        cell.update(o=o, p=p, n=n, cat=cat, ry=ry)
        r, err = raised(lambda: o.update(X, y), RuntimeError)
        if err is not None:
            prove('only an invalid polytope refuses updates', Not(t_(v)))
            return
        prove('an invalid polytope refuses updates', t_(v))
        for nm, tm in upd_inv(None, m.t, None):
            prove(nm, tm)
        P2, N2 = o._pos_classes, o._neg_classes
        k = ctx().const('k', Int)
        prove('valid only without a category of both labels', Implies(t_(o.is_valid), Not(And(P2.has(k), N2.has(k)))))
        w = ctx().const('w', Int)
        prove('invalid only with a category of both labels', Or(t_(o.is_valid), Exists([Int], lambda q: And(P2.has(q), N2.has(q)))))
        prove('success means valid', t_(r) == t_(o.is_valid))
        cover('updated')
    us.append(Unit(E, 'CategoricalPolytope.update', d_update, {'CategoricalPolytope.update:for#1': LoopSpec(inv=upd_inv)}))
    return us


# ------------------------------------------------------------------------------------------------ C11
def units_C11(E):
    us = []
    NM = 'MultiSetPolytope'

    class State:
        """the abstract state: positive items, negative items, cached negative points"""
        def __init__(self, o):
            self.o = o
            for nm, ty in (('_pos_indexes', SymSet), ('_neg_indexes', SymSet), ('_neg_point_cache', SymList)):
                if not isinstance(getattr(o, nm, None), ty):
                    ctx().unsupported('the representation of MultiSetPolytope has no %s' % nm)
            self.p, self.n = o._pos_indexes.mem, o._neg_indexes.mem
            l = o._neg_point_cache
            if l.items is not None:
                sets = [x.mem for x in l.items]
                self.len = z3.IntVal(len(sets))
                self.c = lambda i, x: Or([And(i == k, m(x)) for k, m in enumerate(sets)]) if sets else z3.BoolVal(False)
            else:
                if getattr(l, 'mem2', None) is None:
                    ctx().unsupported('the cache is not a list of sets')
                self.len, self.c = dterm(l.n), l.mem2

    def structure(o, d):
        """representation invariant of a valid polytope"""
        S = State(o)
        rng = lambda k: And(k >= 0, k < d.t)
        return [
            ('positive items are items', forall_k(lambda k: Implies(S.p(k), rng(k)), lambda k: [S.p(k)])),
            ('negative items are items', forall_k(lambda k: Implies(S.n(k), rng(k)), lambda k: [S.n(k)])),
            ('no item is both', forall_k(lambda k: Not(And(S.p(k), S.n(k))), lambda k: [S.p(k), S.n(k)])),
            ('cached points hold items not known positive', Forall([Int, Int], lambda i, k: Implies(
                And(i >= 0, i < S.len, S.c(i, k)), And(rng(k), Not(S.p(k)))), lambda i, k: [S.c(i, k)])),
            ('cached points hold two items', each(lambda i: And(i >= 0, i < S.len), S.c, lambda i: Exists(
                [Int, Int], lambda a, b: And(a != b, S.c(i, a), S.c(i, b)), lambda a, b: [mp(S.c(i, a), S.c(i, b))]))),
        ]

    def agrees(o, lab):
        """everything recorded holds under the labeling"""
        S = State(o)
        return [
            ('positive items are positive', forall_k(lambda k: Implies(S.p(k), lab(k)), lambda k: [S.p(k)])),
            ('negative items are negative', forall_k(lambda k: Implies(S.n(k), Not(lab(k))), lambda k: [S.n(k)])),
            ('every cached point has a negative item', each(lambda i: And(i >= 0, i < S.len), S.c, lambda i: Exists(
                [Int], lambda k: And(S.c(i, k), Not(lab(k))), lambda k: [S.c(i, k)]))),
        ]

    def remembers(o, q, positive, when=None):
        """a labeled set q given earlier is accounted for"""
        S = State(o)
        w = z3.BoolVal(True) if when is None else when
        return [
            ('the items of a positive point are positive', Implies(And(w, positive), forall_k(lambda k: Implies(q(k), S.p(k)), lambda k: [q(k)]))),
            ('a negative point has a negative item or is cached', Implies(And(w, Not(positive)), Or(
                Exists([Int], lambda k: And(q(k), S.n(k))),
                Exists([Int, Int], lambda i, h: And(i >= 0, i < S.len, touch(S.c(i, h)), forall_k(lambda k: Implies(S.c(i, k), q(k)), lambda k: [S.c(i, k)])), lambda i, h: [S.c(i, h)])))),
        ]

    def setup():
        P = E.load(MOD)
        o = obj_of(P.MultiSetPolytope)
        o.__init__()
        State(o)
        priv(o, NM, 'is_valid')
        p, n = ctx().func('pos', Int, Bool), ctx().func('neg', Int, Bool)
        o._pos_indexes, o._neg_indexes = SymSet(lambda k: p(k)), SymSet(lambda k: n(k))
        o._neg_point_cache = SymList()
        o._neg_point_cache.havoc_as('set')
        setpriv(o, NM, 'is_valid', True)
        ctx().roots.append(('polytope', o))
        return o

    def batch(d):
        m = size('m')
        X, y = mat('X', m, d), vec('y', m)
        rx, ry = X.reader(), y.reader()
        assume(forall2(m.t, d.t, lambda i, j: Or(rx(i, j) == 0, rx(i, j) == 1), lambda i, j: [rx(i, j)]))
        return m, X, y, rx, ry

    item = lambda rx, d, i, k: And(k >= 0, k < d.t, rx(i, k) > 0)

    def d_init():
        P = E.load(MOD)
        o = P.MultiSetPolytope()
        d = size('d')
        m, X, y, rx, ry = batch(d)
        lab = ctx().func('lab', Int, Bool)
        r = o.predict(X)
        rr = r.reader()
        prove('a new polytope is valid', t_(o.is_valid))
        prove('a new polytope knows nothing', And(dterm(r.shape[0]) == m.t, forall(0, m.t, lambda i: rr(i) == z3.Q(1, 2))))
        for nm, t in structure(o, d) + agrees(o, lab):
            prove(nm, t)
    us.append(Unit(E, NM + '.__init__', d_init))

    def d_clear():
        o = setup()
        setpriv(o, NM, 'is_valid', symbool('valid'))
        o.clear()
        d = size('d')
        m, X, y, rx, ry = batch(d)
        r = o.predict(X)
        rr = r.reader()
        S = State(o)
        prove('a reset polytope is valid', t_(o.is_valid))
        prove('a reset polytope knows nothing', forall(0, m.t, lambda i: rr(i) == z3.Q(1, 2)))
        prove('nothing is remembered', And(S.len == 0, forall_k(lambda k: Not(Or(S.p(k), S.n(k))))))
    us.append(Unit(E, NM + '.clear', d_clear))

    def d_predict():
        o = setup()
        d = size('d')
        v = symbool('valid')
        setpriv(o, NM, 'is_valid', v)
        m, X, y, rx, ry = batch(d)
        lab, q = ctx().func('lab', Int, Bool), ctx().func('q', Int, Bool)
        S0 = State(o)
        for nm, t in structure(o, d) + agrees(o, lab):
            assume(Implies(t_(v), t))
        r = o.predict(X)
        rr = r.reader()
        prove('one answer per row', dterm(r.shape[0]) == m.t)
        i = ctx().const('i', Int)
        assume(i >= 0, i < m.t)
        prove('an invalid polytope answers unknown', Implies(Not(t_(v)), rr(i) == z3.Q(1, 2)))
        prove('answers are 0, 1 or unknown', Or(rr(i) == 0, rr(i) == 1, rr(i) == z3.Q(1, 2)))
        prove('a positive answer holds in every consistent labeling', Implies(rr(i) == 1, forall_k(lambda k: Implies(item(rx, d, i, k), lab(k)), lambda k: [rx(i, k)])))
        prove('a negative answer holds in every consistent labeling', Implies(rr(i) == 0, Exists([Int], lambda k: And(item(rx, d, i, k), Not(lab(k))))))
        prove('sets of positive items only are positive', Implies(And(t_(v), rr(i) != 1, forall_k(lambda k: Implies(item(rx, d, i, k), S0.p(k)), lambda k: [rx(i, k)])),
                                                                   forall_k(lambda k: Not(S0.p(k)))))
        k1 = ctx().const('k1', Int)
        prove('sets with a negative item are negative', Implies(And(t_(v), item(rx, d, i, k1), S0.n(k1)), rr(i) == 0))
        # a set given earlier
        S = State(o)
        same = forall_k(lambda k: Implies(And(k >= 0, k < d.t), q(k) == (rx(i, k) > 0)), lambda k: [q(k)])
        same2 = forall_k(lambda k: Implies(And(k >= 0, k < d.t), q(k) == (rx(i, k) > 0)), lambda k: [rx(i, k)])
        inr = forall_k(lambda k: Implies(q(k), And(k >= 0, k < d.t)), lambda k: [q(k)])
        for pos in (True, False):
            mem = And([t for _, t in remembers(o, q, z3.BoolVal(pos))])
            prove('a set given as %s is not answered otherwise' % ('positive' if pos else 'negative'),
                  Implies(And(t_(v), same, same2, inr, mem), rr(i) != (0 if pos else 1)))
        prove('answering changes nothing', And(S.len == S0.len, forall_k(lambda k: And(S.p(k) == S0.p(k), S.n(k) == S0.n(k))),
                                               Forall([Int, Int], lambda a, b: S.c(a, b) == S0.c(a, b))))
        cover('answer')
    us.append(Unit(E, NM + '.predict', d_predict))

    # the two loops of the update
    cell = {}

    def rows_inv(L, t, g):
        o, d = cell['o'], cell['d']
        out = [('still valid', t_(priv(o, NM, 'is_valid')))] + structure(o, d)
        if 'lab' in cell:
            out += agrees(o, cell['lab'])
        if 'q' in cell:
            out += remembers(o, cell['q'], cell['qpos'], None if cell['row'] is None else t > cell['row'])
        return out

    def cache_entry(L, g):
        S = State(cell['o'])
        g.c0, g.len0, g.p0, g.n0 = S.c, S.len, S.p, S.n
        g.idx = L.idx.mem

    def cache_inv(L, t, g):
        S = State(cell['o'])
        nn = L.new_neg.mem
        inr = lambda i: And(i >= 0, i < g.len0)
        return [
            ('length of the cache', S.len == g.len0),
            ('nothing else changes', forall_k(lambda k: And(S.p(k) == g.p0(k), S.n(k) == g.n0(k)), lambda k: [S.p(k), S.n(k)])),
            ('treated caches lose the positive items', Forall([Int, Int], lambda i, k: Implies(inr(i), S.c(i, k) == And(
                g.c0(i, k), Or(i >= t, Not(g.idx(k))))), lambda i, k: [S.c(i, k), g.c0(i, k)])),
            ('new negative items come from single-item caches', forall_k(lambda k: Implies(nn(k), Exists([Int], lambda i: And(
                inr(i), i < t, S.c(i, k), forall_k(lambda h: Implies(S.c(i, h), h == k), lambda h: [S.c(i, h)])))), lambda k: [nn(k)])),
            ('treated caches have two items or a new negative one', each(lambda i: And(inr(i), i < t), S.c, lambda i: Or(
                Exists([Int, Int], lambda a, b: And(a != b, S.c(i, a), S.c(i, b)), lambda a, b: [mp(S.c(i, a), S.c(i, b))]),
                Exists([Int], lambda a: And(S.c(i, a), nn(a)), lambda a: [S.c(i, a)])))),
        ]

    loops = {NM + '.update:for#1': LoopSpec(inv=rows_inv),
             NM + '.__update_positive_set:for#1': LoopSpec(entry=cache_entry, inv=cache_inv)}

    def run_update(o, X, y):
        r, err = raised(lambda: o.update(X, y), RuntimeError)
        if err is not None:
            prove('a valid polytope accepts updates', z3.BoolVal(False))
        prove('success means valid', t_(r) == t_(o.is_valid))
        return r

    def start(lab=False, q=False):
        o = setup()
        d = size('d')
        m, X, y, rx, ry = batch(d)
        cell.clear()
        cell.update(o=o, d=d)
        for nm, t in structure(o, d):
            assume(t)
        return o, d, m, X, y, rx, ry

    def d_update_lab():
        o, d, m, X, y, rx, ry = start()
        lab = ctx().func('lab', Int, Bool)
        cell['lab'] = lab
        for nm, t in agrees(o, lab):
            assume(t)
        assume(forall2(m.t, d.t, lambda i, k: Implies(And(ry(i) == 1, rx(i, k) > 0), lab(k)), lambda i, k: [rx(i, k)]))
        bad = ctx().func('bad', Int, Int)
        assume(forall(0, m.t, lambda i: Implies(ry(i) != 1, And(item(rx, d, i, bad(i)), Not(lab(bad(i))))), lambda i: [ry(i)]))
        run_update(o, X, y)
        prove('valid while a consistent labeling exists', t_(o.is_valid))
        for nm, t in structure(o, d) + agrees(o, lab):
            prove('after the update: ' + nm, t)
        cover('updated')
    us.append(Unit(E, NM + '.update[labeling]', d_update_lab, loops))

    def d_update_q(row):
        def drv():
            o, d, m, X, y, rx, ry = start()
            if row:
                r0 = ctx().const('row', Int)
                assume(r0 >= 0, r0 < m.t)
                q = lambda k: item(rx, d, r0, k)
                cell.update(q=q, qpos=ry(r0) == 1, row=r0)
            else:
                q = ctx().func('q', Int, Bool)
                qpos = ctx().const('qpos', Bool)
                cell.update(q=q, qpos=qpos, row=None)
                for nm, t in remembers(o, q, qpos):
                    assume(t)
            run_update(o, X, y)
            v = t_(o.is_valid)
            for nm, t in remembers(o, q, cell['qpos']):
                prove('while valid: ' + nm, Implies(v, t))
            S = State(o)
            k1 = ctx().const('k1', Int)
            prove('a negative point with one undecided item makes it negative', Implies(And(
                v, Not(cell['qpos']), q(k1), Not(S.p(k1)), forall_k(lambda k: Implies(And(q(k), k != k1), S.p(k)), lambda k: [q(k)])), S.n(k1)))
            cover('updated')
        return drv
    us.append(Unit(E, NM + '.update[earlier point]', d_update_q(False), loops))
    us.append(Unit(E, NM + '.update[point of the batch]', d_update_q(True), loops))

    def d_refuse():
        o = setup()
        setpriv(o, NM, 'is_valid', False)
        d = size('d')
        m, X, y, rx, ry = batch(d)
        r, err = raised(lambda: o.update(X, y), RuntimeError)
        prove('an invalid polytope refuses updates', z3.BoolVal(err is not None))
    us.append(Unit(E, NM + '.update[invalid]', d_refuse, loops))
    return us


# ------------------------------------------------------------------------------------------------ C12
GEO = 'aideme.active_learning.dsm.convex.geometry'
ONE = 'aideme.active_learning.dsm.convex.one_dim_convex'
CVX = 'aideme.active_learning.dsm.convex.convex'


def extreme(rd, n, m, lo):
    """m is the least (greatest) of rd(0..n-1)"""
    cmp = (lambda a: m <= a) if lo else (lambda a: m >= a)
    return And(forall(0, n, lambda i: cmp(rd(i)), lambda i: [rd(i)]), Exists([Int], lambda i: And(i >= 0, i < n, rd(i) == m), lambda i: [rd(i)]))


class ConeRef:
    """contract of a one-dimensional NegativeCone (verified below against the real class)"""
    __pvobject__ = True

    def __init__(self, lst, i, err):
        self._pv_l, self._pv_i, self._pv_err = lst, i, err

    @property
    def is_built(self):
        return wrap(self._pv_l.B(self._pv_i))

    def add_points_to_hull(self, points):
        l, i = self._pv_l, self._pv_i
        a = toarr(points)
        if a.ndim != 2:
            a = a.reshape(1, -1)
        prove('cones get points of dimension one', dterm(a.shape[1]) == 1)
        n, rd = dterm(a.shape[0]), a.reader()
        prove('cones get at least one point', n >= 1)
        ra = lambda k: rd(k, z3.IntVal(0))
        c = ctx()
        mn, mx = as_term(a.min()), as_term(a.max())
        b = l.B(i)
        lo = If(And(b, l.LO(i) <= mn), l.LO(i), mn)
        hi = If(And(b, l.HI(i) >= mx), l.HI(i), mx)
        v = l.V(i)
        if c.branch(And(v >= lo, v <= hi)):
            raise self._pv_err()
        l.put(i, v, z3.BoolVal(True), lo, hi)

    def is_inside(self, X):
        l, i = self._pv_l, self._pv_i
        a = toarr(X)
        rd = a.reader()
        return Arr.make((a.shape[0],), 'bool', lambda k: And(l.B(i), Or(
            And(l.V(i) > l.HI(i), rd(k, z3.IntVal(0)) >= l.V(i)), And(l.V(i) < l.LO(i), rd(k, z3.IntVal(0)) <= l.V(i)))))


class ConeList(SymList):
    """a list of cones of any length"""

    def __init__(self, err):
        SymList.__init__(self)
        self.err = err
        self.items = None
        self._fn = lambda i: ConeRef(self, as_term(i), err)
        self.havoc_as('cone')

    def havoc_as(self, kind):
        c = ctx()
        n = size('cones')
        self._n = n
        self.V, self.B = c.func('V', Int, Real), c.func('B', Int, Bool)
        self.LO, self.HI = c.func('LO', Int, Real), c.func('HI', Int, Real)
        self.touch()

    def put(self, i, v, b, lo, hi):
        c = ctx()
        for nm, new in (('V', v), ('B', b), ('LO', lo), ('HI', hi)):
            old = getattr(self, nm)
            f = c.func(nm, Int, Bool if nm == 'B' else Real)
            c.assume(f(i) == new, Forall([Int], lambda j: Or(j == i, f(j) == old(j)), lambda j: [f(j), old(j)]))
            setattr(self, nm, f)
        self.touch()

    def pats(self, i):
        return [self.V(i), self.B(i), self.LO(i), self.HI(i)]

    def append(self, cone):
        if not isinstance(cone, ConeRef):
            ctx().unsupported('a list of cones holds something else')
        l, i = cone._pv_l, cone._pv_i
        n = dterm(self._n)
        self.put(n, l.V(i), l.B(i), l.LO(i), l.HI(i))
        self._n = dim_wrap(n + 1)


class NewCone:
    pats = staticmethod(lambda i: None)
    """a single new cone"""

    def __init__(self, v):
        self.V, self.B = (lambda j: v), (lambda j: z3.BoolVal(False))
        self.LO = self.HI = lambda j: z3.RealVal(0)

    def put(self, i, v, b, lo, hi):
        self.V, self.B, self.LO, self.HI = (lambda j: v), (lambda j: b), (lambda j: lo), (lambda j: hi)


def units_C12(E):
    us = []

    # ---- the one-dimensional hull and cone, real code
    def hull(c=None):
        O = E.load(ONE)
        h = obj_of(O.OneDimensionalConvexHull)
        h.left, h.right = symreal('lo'), symreal('hi')
        assume(h.left.t <= h.right.t)
        return h

    def points(k=None):
        n = size('k', 1)
        a = mat('P', n, 1)
        rd = a.reader()
        return n, a, lambda i: rd(i, z3.IntVal(0))

    def d_hull_init():
        O = E.load(ONE)
        n, a, rd = points()
        h = O.OneDimensionalConvexHull(a)
        prove('left end is the least point', extreme(rd, n.t, t_(h.left), True))
        prove('right end is the greatest point', extreme(rd, n.t, t_(h.right), False))
        v = h.vertices
        vr = v.reader()
        prove('vertices are the two ends', And(dterm(v.shape[0]) == 2, dterm(v.shape[1]) == 1, vr(z3.IntVal(0), z3.IntVal(0)) == t_(h.left),
                                               vr(z3.IntVal(1), z3.IntVal(0)) == t_(h.right)))
    us.append(Unit(E, 'OneDimensionalConvexHull.__init__', d_hull_init))

    def d_hull_add():
        h = hull()
        l0, r0 = h.left.t, h.right.t
        n, a, rd = points()
        h.add_points(a)
        l1, r1 = t_(h.left), t_(h.right)
        prove('the interval covers the old one', And(l1 <= l0, r1 >= r0))
        prove('the interval covers the points', forall(0, n.t, lambda i: And(l1 <= rd(i), r1 >= rd(i))))
        prove('left end is the old one or a point', Or(l1 == l0, Exists([Int], lambda i: And(i >= 0, i < n.t, rd(i) == l1), lambda i: [rd(i)])))
        prove('right end is the old one or a point', Or(r1 == r0, Exists([Int], lambda i: And(i >= 0, i < n.t, rd(i) == r1), lambda i: [rd(i)])))
    us.append(Unit(E, 'OneDimensionalConvexHull.add_points', d_hull_add))

    def d_hull_inside():
        h = hull()
        n, a, rd = points()
        r = h.is_inside(a)
        rr = r.reader()
        prove('one answer per point', And(z3.BoolVal(r.ndim == 1), dterm(r.shape[0]) == n.t))
        prove('inside exactly between the ends', forall(0, n.t, lambda i: rr(i) == And(h.left.t <= rd(i), rd(i) <= h.right.t)))
    us.append(Unit(E, 'OneDimensionalConvexHull.is_inside', d_hull_inside))

    def cone_state(built):
        G, O = E.load(GEO), E.load(ONE)
        v = symreal('v')
        o = G.NegativeCone(Arr.make((1,), 'real', lambda i: v.t))
        if built:
            c = obj_of(O.OneDimensionalConvexCone)
            c.vertex, c.hull = v, hull()
            lo, hi = c.hull.left.t, c.hull.right.t
            assume(Or(v.t < lo, v.t > hi))
            c.right_cone = wrap(v.t > hi)
            if not hasattr(o, '_cone'):
                ctx().unsupported('the representation of NegativeCone has no _cone')
            o._cone = c
            return o, v.t, lo, hi
        return o, v.t, None, None

    def cone_is(o, v, lo, hi):
        """the built cone o behaves as the cone at v of the interval [lo, hi]"""
        m = size('q')
        X = mat('Q', m, 1)
        rx = X.reader()
        r = o.is_inside(X)
        rr = r.reader()
        x = lambda i: rx(i, z3.IntVal(0))
        prove('the cone is built', t_(o.is_built))
        prove('one answer per point', And(z3.BoolVal(r.ndim == 1), dterm(r.shape[0]) == m.t))
        prove('inside exactly behind the vertex', forall(0, m.t, lambda i: rr(i) == Or(And(v > hi, x(i) >= v), And(v < lo, x(i) <= v)),
                                                         lambda i: [x(i)]))
        c = o._cone
        prove('state of the cone', And(t_(c.vertex) == v, t_(c.hull.left) == lo, t_(c.hull.right) == hi, t_(c.right_cone) == (v > hi)))

    def d_cone_init():
        o, v, _, _ = cone_state(False)
        m = size('q')
        X = mat('Q', m, 1)
        r = o.is_inside(X)
        rr = r.reader()
        prove('a new cone is not built', Not(t_(o.is_built)))
        prove('a new cone contains nothing', And(dterm(r.shape[0]) == m.t, forall(0, m.t, lambda i: Not(rr(i)))))
    us.append(Unit(E, 'NegativeCone.__init__', d_cone_init))

    def d_cone_add(built):
        def drv():
            C = E.load(CVX)
            o, v, lo, hi = cone_state(built)
            n, a, rd = points()
            mn, mx = as_term(a.min()), as_term(a.max())
            lo1 = mn if lo is None else If(lo <= mn, lo, mn)
            hi1 = mx if hi is None else If(hi >= mx, hi, mx)
            r, err = raised(lambda: o.add_points_to_hull(a), C.ConvexError)
            if err is not None:
                prove('conflict only when the vertex is inside', And(v >= lo1, v <= hi1))
                cover('conflict')
                return
            prove('conflict whenever the vertex is inside', Not(And(v >= lo1, v <= hi1)))
            cone_is(o, v, lo1, hi1)
            cover('grown')
        return drv
    us.append(Unit(E, 'NegativeCone.add_points_to_hull[first]', d_cone_add(False)))
    us.append(Unit(E, 'NegativeCone.add_points_to_hull[more]', d_cone_add(True)))

    # ---- the polytope over any number of cones (by the contract just verified)
    def setup(case):
        P, O, C = E.load(MOD), E.load(ONE), E.load(CVX)
        o = obj_of(P.Polytope)
        o.__init__()
        priv(o, 'Polytope', 'is_valid')
        reg = o.positive_region
        lo = hi = None
        if case == 1:
            x = symreal('p')
            reg._cache.data = Arr.make((1, 1), 'real', lambda i, j: x.t)
            lo = hi = x.t
        elif case == 2:
            reg._hull = hull()
            lo, hi = reg._hull.left.t, reg._hull.right.t
        l = ConeList(C.ConvexError)
        o.negative_region = l
        swap(P, 'NegativeCone', lambda vertex, tol=1e-12: ConeRef(NewCone(as_term(toarr(vertex).reshape(-1)[0])), z3.IntVal(0), C.ConvexError))
        ctx().roots.append(('polytope', o))
        for _, t in consistent(l, dterm(l.n), lo, hi):
            assume(t)
        return o, l, lo, hi

    def consistent(l, n, lo, hi):
        """the cones of a valid polytope with positive interval [lo, hi]"""
        if lo is None:
            return [('cones wait for a positive point', forall(0, n, lambda i: Not(l.B(i)), lambda i: [l.B(i)]))]
        return [('cones know the interval', forall(0, n, lambda i: And(l.B(i), l.LO(i) == lo, l.HI(i) == hi), lambda i: l.pats(i))),
                ('no negative point in the interval', forall(0, n, lambda i: Or(l.V(i) < lo, l.V(i) > hi), lambda i: l.pats(i)))]

    cell = {}

    def region_is(o, cnt, lo, hi):
        """the positive region holds the interval (cnt: positive points seen, at most 2 counted)"""
        reg = o.positive_region
        if reg.is_built:
            return And(cnt >= 2, t_(reg._hull.left) == lo, t_(reg._hull.right) == hi)
        d = reg._cache.data
        if d is None:
            return cnt == 0
        r = d.reader()
        return And(cnt == 1, dterm(d.shape[0]) == 1, dterm(d.shape[1]) == 1, r(z3.IntVal(0), z3.IntVal(0)) == lo, lo == hi)

    def d_predict(case):
        def drv():
            o, l, lo, hi = setup(case)
            v = symbool('valid')
            setpriv(o, 'Polytope', 'is_valid', v)
            m = size('m')
            X = mat('X', m, 1)
            rx = X.reader()
            x = lambda i: rx(i, z3.IntVal(0))
            cell.clear()
            behind = lambda j, i: z3.BoolVal(False) if lo is None else Or(And(l.V(i) > hi, x(j) >= l.V(i)), And(l.V(i) < lo, x(j) <= l.V(i)))
            inside = lambda j: And(lo <= x(j), x(j) <= hi) if case == 2 else z3.BoolVal(False)
            cell.update(behind=behind, inside=inside, m=m, l=l)
            r = o.predict(X)
            rr = r.reader()
            prove('one answer per row', dterm(r.shape[0]) == m.t)
            j = ctx().const('j', Int)
            assume(j >= 0, j < m.t)
            n = dterm(l.n)
            ex = Exists([Int], lambda i: And(i >= 0, i < n, behind(j, i)), lambda i: l.pats(i))
            prove('an invalid polytope answers unknown', Implies(Not(t_(v)), rr(j) == z3.Q(1, 2)))
            prove('negative exactly behind a negative point', Implies(t_(v), (rr(j) == 0) == ex))
            prove('positive exactly in the interval', Implies(t_(v), (rr(j) == 1) == inside(j)))
            prove('unknown otherwise', Implies(And(t_(v), Not(ex), Not(inside(j))), rr(j) == z3.Q(1, 2)))
            if case:
                k = ctx().const('k', Int)
                prove('negative points are answered negative', Implies(And(t_(v), k >= 0, k < n, x(j) == l.V(k)), rr(j) == 0))
            cover('answer')
        return drv

    def predict_inv(L, t, g):
        p = L.probas.reader()
        l, m = cell['l'], cell['m']
        gone = lambda j: Exists([Int], lambda i: And(i >= 0, i < t, cell['behind'](j, i)), lambda i: l.pats(i))
        return [('answers so far', forall(0, m.t, lambda j: Or(And(p(j) == 0, gone(j)), And(p(j) == If(cell['inside'](j), 1, z3.Q(1, 2)), Not(gone(j)))), lambda j: [p(j)])),
                ('one answer per row', dterm(L.probas.shape[0]) == m.t)]
    for case, nm in enumerate(('no positive point', 'one positive point', 'more positive points')):
        us.append(Unit(E, 'Polytope.predict[%s]' % nm, d_predict(case), {'Polytope.predict:for#1': LoopSpec(inv=predict_inv)}))

    def interval(o):
        """the interval the positive region holds now"""
        reg = o.positive_region
        if reg.is_built:
            return t_(reg._hull.left), t_(reg._hull.right)
        d = reg._cache.data
        if d is None:
            return None, None
        x = d.reader()(z3.IntVal(0), z3.IntVal(0))
        return x, x

    # update
    def pos_entry(L, g):
        l = cell['l']
        g.V, g.n, g.B0, g.LO0, g.HI0 = l.V, dterm(l.n), l.B, l.LO, l.HI

    def pos_inv(L, t, g):
        l = cell['l']
        lo, hi = cell['lo1'], cell['hi1']
        return [('same cones', And(dterm(l.n) == g.n, forall(0, g.n, lambda i: l.V(i) == g.V(i), lambda i: l.pats(i) + [g.V(i)]))),
                ('treated cones know the new interval', forall(0, t, lambda i: And(l.B(i), l.LO(i) == lo, l.HI(i) == hi, Or(l.V(i) < lo, l.V(i) > hi)),
                                                               lambda i: l.pats(i))),
                ('other cones are unchanged', forall(t, g.n, lambda i: And(l.B(i) == g.B0(i), l.LO(i) == g.LO0(i), l.HI(i) == g.HI0(i)), lambda i: l.pats(i)))]

    def neg_entry(L, g):
        l = cell['l']
        g.V, g.n0 = l.V, dterm(l.n)
        g.rd = L.X.reader()

    def neg_inv(L, t, g):
        l = cell['l']
        out = [('old cones stay', And(dterm(l.n) == g.n0 + t, forall(0, g.n0, lambda i: l.V(i) == g.V(i), lambda i: l.pats(i) + [g.V(i)]))),
               ('new cones at the negative points', forall(0, t, lambda i: l.V(g.n0 + i) == g.rd(i, z3.IntVal(0)), lambda i: [g.rd(i, z3.IntVal(0))]))]
        if cell.get('any') is None:
            return out + consistent(l, g.n0 + t, *interval(cell['o']))
        return out
    loops = {'Polytope.__update_positive:for#1': LoopSpec(entry=pos_entry, inv=pos_inv),
             'Polytope.__update_negative:for#1': LoopSpec(entry=neg_entry, inv=neg_inv)}

    def d_update(case):
        def drv():
            o, l, lo, hi = setup(case)
            m = size('m')
            X, y = mat('X', m, 1), vec('y', m)
            rx, ry = X.reader(), y.reader()
            x = lambda i: rx(i, z3.IntVal(0))
            V0, n0 = l.V, dterm(l.n)
            # the new interval: the extremes of the old one and the positive points of the batch
            c = ctx()
            pos = X[y == 1]
            pn = dterm(pos.shape[0])
            anyp = c.branch(pn > 0)
            if anyp:
                mn, mx = as_term(pos.min()), as_term(pos.max())
                lo1 = mn if lo is None else If(lo <= mn, lo, mn)
                hi1 = mx if hi is None else If(hi >= mx, hi, mx)
            else:
                lo1, hi1 = lo, hi
            cnt1 = case + pn
            cell.clear()
            cell.update(l=l, lo1=lo1, hi1=hi1, o=o)
            r = o.update(X, y)
            neg = X[y != 1]
            nr, nn = neg.reader(), dterm(neg.shape[0])
            ok = z3.BoolVal(True) if lo1 is None else And(
                forall(0, n0, lambda i: Or(V0(i) < lo1, V0(i) > hi1), lambda i: [V0(i)]),
                forall(0, m.t, lambda i: Implies(ry(i) != 1, Or(x(i) < lo1, x(i) > hi1)), lambda i: [rx(i, z3.IntVal(0))]))
            prove('success means valid', t_(r) == t_(o.is_valid))
            if c.branch(t_(o.is_valid)):
                prove('every negative point is remembered', And(dterm(l.n) == n0 + nn, forall(0, n0, lambda i: l.V(i) == V0(i), lambda i: l.pats(i) + [V0(i)]),
                      forall(0, nn, lambda i: l.V(n0 + i) == nr(i, z3.IntVal(0)), lambda i: [nr(i, z3.IntVal(0))])))
                if lo1 is not None:
                    prove('no cone in the interval', forall(0, dterm(l.n), lambda i: Or(l.V(i) < lo1, l.V(i) > hi1), lambda i: l.pats(i)))
                    prove('no negative point of the batch in the positive interval', forall(0, nn, lambda i: Or(nr(i, z3.IntVal(0)) < lo1, nr(i, z3.IntVal(0)) > hi1),
                                                                                                   lambda i: [nr(i, z3.IntVal(0))]))
                prove('valid only without a negative point in the positive interval', ok)
                prove('the positive region is the interval', region_is(o, cnt1, lo1, hi1))
                for nm, t in consistent(l, dterm(l.n), lo1, hi1):
                    prove('while valid: ' + nm, t)
                cover('valid')
            else:
                late = z3.BoolVal(False) if lo1 is None else Exists([Int], lambda i: And(i >= n0, i < dterm(l.n), lo1 <= l.V(i), l.V(i) <= hi1,
                                                                                         l.V(i) == nr(i - n0, z3.IntVal(0))), lambda i: l.pats(i))
                prove('invalid only with a negative point in the positive interval', Or(Not(ok), late))
                cover('conflict')
        return drv
    for case, nm in enumerate(('no positive point', 'one positive point', 'more positive points')):
        us.append(Unit(E, 'Polytope.update[%s]' % nm, d_update(case), loops))

    def d_new(cleared):
        def drv():
            P = E.load(MOD)
            if cleared:
                o, l, lo, hi = setup(ctx().choose(3))
                setpriv(o, 'Polytope', 'is_valid', symbool('valid'))
                o.clear()
            else:
                o = P.Polytope()
            m = size('m')
            X = mat('X', m, 1)
            rr = o.predict(X).reader()
            prove('valid', t_(o.is_valid))
            prove('knows nothing', forall(0, m.t, lambda i: rr(i) == z3.Q(1, 2)))
            prove('no positive point', region_is(o, z3.IntVal(0), None, None))
        return drv
    us.append(Unit(E, 'Polytope.__init__', d_new(False)))
    us.append(Unit(E, 'Polytope.clear', d_new(True)))

    def d_refuse():
        o, l, lo, hi = setup(2)
        setpriv(o, 'Polytope', 'is_valid', False)
        X, y = mat('X', size('m'), 1), None
        r, err = raised(lambda: o.update(X, vec('y', X.shape[0])), RuntimeError)
        prove('an invalid polytope refuses updates', z3.BoolVal(err is not None))
    us.append(Unit(E, 'Polytope.update[invalid]', d_refuse))
    return us


def forall_k(body, pats=None):
    return Forall([Int], lambda k: as_term(body(k)), pats)


def units(E, prop):
    return globals()['units_' + prop](E)
