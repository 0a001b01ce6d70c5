"""Contracts of active_learning/dsm/base.py and dsm.py (C09)."""
from .common import *
from .explore import Obj, prop

MOD = 'aideme.active_learning.dsm.base'
DSM = 'aideme.active_learning.dsm.dsm'
N = 'DualSpaceModelBase'

FUNCTIONS = {'C09': [N + '.' + f for f in ('clear', 'fit_data', '__verify_dsm_labeled_points', 'predict', 'predict_proba', 'rank',
                                           'next_points_to_label', '__fit_active_learner')] + ['TrainingSetCache.*', 'DualSpaceModel.__init__',
                                                                                              'FactorizedDualSpaceModel.*']}
ASSUMPTIONS = {'C09': ['polytope model by contract: arbitrary answers in {0, 1/2, 1}, only 1/2 when invalid (verified under C10-C13); '
                       'learner and partitioned dataset by contract (C01, C02, C07)',
                       'next_points_to_label: partial correctness (termination of the search is not claimed)']}
HALF = z3.Q(1, 2)


class Poly(Opq):
    """polytope model; points of the dataset are known by their identifier (attribute ids of the array)"""

    def __init__(self):
        self._pv_v = symbool('valid').t
        self._pv_calls = []
        self._pv_k = 0
        self.new_answers()

    def new_answers(self):
        c, v = ctx(), self._pv_v
        A = c.func('ANS', Int, Real)
        self.ANS = A
        c.assume(Forall([Int], lambda i: And(Or(A(i) == 0, A(i) == 1, A(i) == HALF), Implies(Not(v), A(i) == HALF)), lambda i: [A(i)]))

    @property
    def is_valid(self):
        return wrap(self._pv_v)

    def clear(self):
        self._pv_calls.append(('clear',))

    def predict(self, X):
        X = toarr(X)
        ids = getattr(X, 'ids', None)
        if ids is not None:
            a = Arr.make((X.shape[0],), 'real', lambda j: self.ANS(ids(j)))
        else:
            a = Arr.fresh('answer', (X.shape[0],), 'real')
            rd, v = a.reader(), self._pv_v
            assume(forall(0, dterm(X.shape[0]), lambda i: And(Or(rd(i) == 0, rd(i) == 1, rd(i) == HALF), Implies(Not(v), rd(i) == HALF)),
                          lambda i: [rd(i)]))
        self._pv_calls.append(('predict', X.copy(), a.copy()))
        return a

    def update_data(self, data):
        self._pv_calls.append(('update', data))
        r = symbool('success')
        self._pv_v = symbool('valid_after').t
        assume(Implies(r.t, self._pv_v))
        self.new_answers()
        return r


class Pts(Opq):
    """indexed points: identifiers and rows"""

    def __init__(self, w, n, ids):
        self.w, self.n, self.ids = w, n, ids
        self.index = Arr.make((n,), 'int', ids)
        self.data = Arr.make((n, w.d), 'real', lambda j, k: w.ROW(ids(j), k))
        self.data.ids = ids

    def __getitem__(self, mask):
        i = self.index[mask]
        rd = i.reader()
        return Pts(self.w, i.shape[0], lambda j: rd(j))

    def __pvlen__(self):
        return self.n

    def sample(self, subsample=None):
        k = size('k', 1)
        c = ctx()
        pos = c.func('pos', Int, Int)
        assume(k.t <= dterm(self.n), Forall([Int], lambda j: Implies(And(j >= 0, j < k.t), And(pos(j) >= 0, pos(j) < dterm(self.n))), lambda j: [pos(j)]))
        ids = self.ids
        self.w.asked.append(subsample)
        return Pts(self.w, k, lambda j: ids(pos(j)))


class World:
    """the partitioned dataset"""

    def __init__(self):
        c = ctx()
        self.d = size('d', 1)
        self.ROW = c.func('ROW', Int, Int, Real)
        self.UNL, self.UNK = c.func('UNL', Int, Int), c.func('UNK', Int, Int)
        self.inU = c.func('inU', Int, Bool)
        self.nl, self.nu, self.nk = size('labeled', 1), size('unlabeled'), size('unknown')
        assume(self.nk.t <= self.nu.t, forall(0, self.nu.t, lambda j: self.inU(self.UNL(j)), lambda j: [self.UNL(j)]),
               forall(0, self.nk.t, lambda j: self.inU(self.UNK(j)), lambda j: [self.UNK(j)]))
        self.X, self.y = mat('LX', self.nl, self.d), vec('Ly', self.nl)
        self.asked, self.log = [], []
        self.data = Obj('data', self.log, training_set=lambda get_partial=False: (self.X.copy(), self.y.copy()), remove_inferred=self.removed,
                        unknown_size=prop(lambda: self.nk), unlabeled_size=prop(lambda: self.nu), unknown=prop(lambda: Pts(self, self.nk, self.UNK)),
                        unlabeled=prop(lambda: Pts(self, self.nu, self.UNL)), move_to_inferred=lambda ids: None)

    def removed(self):
        self.nk = size('unknown')
        self.UNK = ctx().func('UNK', Int, Int)
        assume(self.nk.t <= self.nu.t, forall(0, self.nk.t, lambda j: self.inU(self.UNK(j)), lambda j: [self.UNK(j)]))

    def did(self, name):
        return [c for c in self.log if c[0] == 'data.' + name]


class CacheStub(Opq):
    """TrainingSetCache by its contract: n points cached; merge puts them behind the given ones"""

    def __init__(self, w, p, al):
        self._pv_w, self._pv_p, self._pv_al = w, p, al
        self.n = size('cached')
        self.fitted = self.n
        self._pv_last = None

    last = property(lambda self: self._pv_last)

    @property
    def is_empty(self):
        return self.n == 0

    def append(self, X, y):
        w, p, sel = self._pv_w, self._pv_p, self._pv_al._pv_sel
        X, y = toarr(X), toarr(y)
        rx, ry, d = X.reader(), y.reader(), w.d.t
        m = dterm(X.shape[0])
        prove('append: as many labels as points', dterm(y.shape[0]) == m)
        prove('append: points from a proposal', z3.BoolVal(sel is not None))
        A, ids, k = p.ANS, sel.ids, dterm(sel.n)
        c = ctx()
        j = c.const('row', Int)
        assume(j >= 0, j < m)
        prove('append: what is cached is a candidate the polytope is certain of, with its label',
              Exists([Int], lambda i: And(i >= 0, i < k, A(ids(i)) != HALF, ry(j) == A(ids(i)),
                                          forall(0, d, lambda q: rx(j, q) == w.ROW(ids(i), q), lambda q: [rx(j, q)])), lambda i: [ids(i)]))
        i = c.const('cand', Int)
        assume(i >= 0, i < k, A(ids(i)) != HALF)
        prove('append: every certain candidate is cached',
              Exists([Int], lambda j: And(j >= 0, j < m, ry(j) == A(ids(i)), forall(0, d, lambda q: rx(j, q) == w.ROW(ids(i), q), lambda q: [rx(j, q)])), lambda j: [ry(j)]))
        self._pv_last = sel
        self.n = self.n + X.shape[0]

    def merge(self, X, y):
        w = self._pv_w
        prove('merge: the training set is merged', And(same_array(toarr(X), w.X), same_array(toarr(y), w.y)))
        Z, z = mat('MX', w.nl + self.n, w.d), vec('My', w.nl + self.n)
        Z._pv_tag = z._pv_tag = self.n
        return Z, z


class Learner(Opq):
    _pv_cache = _pv_sel = None

    def __init__(self, w, get):
        self._pv_w, self._pv_get, self._pv_calls = w, get, []

    def clear(self):
        self._pv_calls.append(('clear',))

    def fit_stub(self, X, y):
        k, w = self._pv_cache, self._pv_w
        self._pv_calls.append(('fit', k.n))
        tx, ty = getattr(X, '_pv_tag', None), getattr(y, '_pv_tag', None)
        if tx is None and ty is None:
            prove('fit: nothing is cached or everything is merged', t_(k.n) == 0)
            prove('fit: the labeled points', And(same_array(toarr(X), w.X), same_array(toarr(y), w.y)))
        else:
            prove('fit: everything that is cached', z3.BoolVal(tx is not None and ty is not None))
            prove('fit: as cached now', And(t_(tx) == t_(k.n), t_(ty) == t_(k.n)))
        k.fitted = k.n

    def fit(self, X, y):
        if self._pv_cache is not None:
            return self.fit_stub(X, y)
        w, (o, n, cx, cy) = self._pv_w, self._pv_get()
        X, y = toarr(X), toarr(y)
        rx, ry, lx, ly = X.reader(), y.reader(), w.X.reader(), w.y.reader()
        nl, d = w.nl.t, w.d.t
        prove('fit: all labeled and all cached points', And(dterm(X.shape[0]) == nl + n, dterm(y.shape[0]) == nl + n, dterm(X.shape[1]) == d))
        prove('fit: labeled points as they are', forall2(nl, d, lambda i, k: rx(i, k) == lx(i, k)))
        prove('fit: labeled points with their labels', forall(0, nl, lambda i: ry(i) == ly(i)))
        prove('fit: cached points as they are', forall2(n, d, lambda i, k: rx(nl + i, k) == cx(i, k)))
        prove('fit: cached points with their labels', forall(0, n, lambda i: ry(nl + i) == cy(i)))
        self._pv_calls.append(('fit', n))

    def _out(self, kind, X):
        a = Arr.fresh(kind, (toarr(X).shape[0],), 'real')
        self._pv_calls.append((kind, toarr(X).copy(), a.copy()))
        return a

    def predict(self, X):
        return self._out('predict', X)

    def predict_proba(self, X):
        return self._out('predict_proba', X)

    def rank(self, X):
        return self._out('rank', X)

    def _select_next(self, sample):
        k = size('sel', 1)
        pos = ctx().func('selpos', Int, Int)
        assume(forall(0, k.t, lambda j: And(pos(j) >= 0, pos(j) < dterm(sample.n)), lambda j: [pos(j)]))
        ids = sample.ids
        self._pv_sel = Pts(sample.w, k, lambda j: ids(pos(j)))
        return self._pv_sel

    def next_points_to_label(self, data, subsample=None):
        self._pv_calls.append(('next', data, subsample))
        return 'proposed by the learner'

    def calls(self, k):
        return [c for c in self._pv_calls if c[0] == k]


def units_C09(E):
    us = []
    cell = {}

    def cache_state(o):
        c = o._dsm_labeled_cache
        X, y = c._X, c._y
        if not isinstance(X, SymList) or not isinstance(y, SymList):
            ctx().unsupported('the representation of TrainingSetCache changed')
        prove('as many cached labels as points', dterm(X.n) == dterm(y.n))
        fx, fy = X.elem, y.elem
        return o, dterm(X.n), (lambda i, k: fx(i).reader()(k) if X.items is None or X.items else z3.RealVal(0)), \
            (lambda i: to_real(num_term(fy(i))) if y.items is None or y.items else z3.RealVal(0))

    def cache_fns(w):
        c = ctx()
        CX, CY = c.func('CX', Int, Int, Real), c.func('CY', Int, Real)
        return (lambda i: Arr.make((w.d,), 'real', lambda k: CX(as_term(i), k))), (lambda i: wrap(CY(as_term(i)))), CX, CY

    def setup(cached=True):
        M = E.load(MOD)
        w = World()
        p = Poly()
        box = []
        al = Learner(w, lambda: cache_state(box[0]))
        pr = symreal('proba')
        o = M.DualSpaceModelBase(p, al, pr)
        box.append(o)
        t = o._dsm_labeled_cache
        for nm in ('_X', '_y'):
            if not isinstance(getattr(t, nm, None), SymList):
                ctx().unsupported('the representation of TrainingSetCache has no list %s' % nm)
        if cached:
            n = size('cached', 1)
            fx, fy, CX, CY = cache_fns(w)
            assume(forall(0, n.t, lambda i: Or(CY(i) == 0, CY(i) == 1), lambda i: [CY(i)]))
            t._X, t._y = SymList.of(n, fx), SymList.of(n, fy)
        ctx().roots.append(('model', o))
        cell.clear()
        cell.update(o=o, w=w, p=p, al=al)
        return o, w, p, al

    # ---------------------------------------------------------------- predictions
    def d_predict(proba):
        def drv():
            o, w, p, al = setup(ctx().choose(2) == 1)
            m = size('m')
            X = mat('X', m, w.d)
            v0 = p._pv_v
            X0 = X.copy()
            r = (o.predict_proba if proba else o.predict)(X)
            asked = al.calls('predict_proba' if proba else 'predict')
            prove('the training data are unchanged', same_array(X, X0))
            other = al.calls('predict' if proba else 'predict_proba') + al.calls('fit')
            prove('nothing else is asked of the learner', z3.BoolVal(not other and len(asked) <= 1))
            rr = r.reader()
            prove('one answer per row', dterm(r.shape[0]) == m.t)
            if not ctx().branch(v0):
                prove('an invalid polytope leaves it to the learner', z3.BoolVal(len(asked) == 1))
                prove('all points go to the learner', same_array(asked[0][1], X0))
                prove('the answers of the learner', same_array(r, asked[0][2]))
                cover('invalid')
                return
            q = [c for c in p._pv_calls if c[0] == 'predict']
            prove('the polytope is asked', z3.BoolVal(len(q) >= 1))
            prove('about all points', same_array(q[-1][1], X0))
            ans = q[-1][2]
            ra = ans.reader()
            prove('certain answers are kept', forall(0, m.t, lambda i: Implies(ra(i) != HALF, rr(i) == ra(i)), lambda i: [ra(i)]))
            mask = ans == 0.5
            if asked:
                prove('uncertain points go to the learner', same_array(asked[0][1], X0[mask]))
                prove('their answers in their own positions', same_array(r[mask], asked[0][2]))
                cover('asked')
            else:
                prove('the learner is skipped only when nothing is uncertain', forall(0, m.t, lambda i: ra(i) != HALF, lambda i: [ra(i)]))
        return drv
    us.append(Unit(E, N + '.predict', d_predict(False)))
    us.append(Unit(E, N + '.predict_proba', d_predict(True)))

    def d_rank():
        o, w, p, al = setup()
        X = mat('X', size('m'), w.d)
        r = o.rank(X)
        prove('the rank of the learner', z3.BoolVal(len(al.calls('rank')) == 1))
        prove('for the same points', And(same_array(al.calls('rank')[0][1], X), same_array(r, al.calls('rank')[0][2])))
    us.append(Unit(E, N + '.rank', d_rank))

    def d_clear():
        o, w, p, al = setup()
        o.clear()
        prove('learner and polytope are reset once', z3.BoolVal(al._pv_calls == [('clear',)] and p._pv_calls == [('clear',)]))
        prove('no cached point is left', dterm(o._dsm_labeled_cache._X.n) + dterm(o._dsm_labeled_cache._y.n) == 0)
        prove('reported empty', t_(o._dsm_labeled_cache.is_empty))
    us.append(Unit(E, N + '.clear', d_clear))

    # ---------------------------------------------------------------- fitting
    def d_fit(cached):
        def drv():
            o, w, p, al = setup(cached)
            v0 = p._pv_v
            _, n0, cx0, cy0 = cache_state(o)
            data = w.data
            c = ctx()
            o.fit_data(data)
            fits = al.calls('fit')
            ups = [q for q in p._pv_calls if q[0] == 'update']
            prove('the learner is fitted', z3.BoolVal(1 <= len(fits) <= 2))
            prove('nothing else is done to the learner', z3.BoolVal(len(al._pv_calls) == len(fits)))
            if not c.branch(v0):
                prove('an invalid polytope is not updated', z3.BoolVal(not ups))
                prove('nothing is inferred by an invalid polytope', z3.BoolVal(not w.did('move_to_inferred')))
                prove('fitted once', z3.BoolVal(len(fits) == 1))
                return
            prove('a valid polytope is updated once with the data', z3.BoolVal(len(ups) == 1 and ups[0][1] is data))
            o_, n1, cx1, cy1 = cache_state(o)
            d = w.d.t
            conflict = len(w.did('remove_inferred')) == 1
            mv = w.did('move_to_inferred')
            pr = [q for q in p._pv_calls if q[0] == 'predict']
            prove('the last fit used the present cache', fits[-1][1] == n1)
            if not conflict:
                prove('the cache is kept', And(n1 == n0, forall2(n0, d, lambda i, k: cx1(i, k) == cx0(i, k)), forall(0, n0, lambda i: cy1(i) == cy0(i))))
            elif cached:
                q = pr[0]
                qx, qa = q[1].reader(), q[2].reader()
                prove('cached points are checked again', And(dterm(q[1].shape[0]) == n0, forall2(n0, d, lambda i, k: qx(i, k) == cx0(i, k))))
                keep = c.func('keep', Int, Int)
                mask = q[2] != 0.5
                from pyvc.arrays import mask_select
                sel, cnt, rank = mask_select(mask, with_rank=True)
                cnt = dterm(cnt)
                prove('exactly the still certain cached points stay', n1 == cnt)
                prove('cached points stay as they are', forall2(cnt, d, lambda i, k: cx1(i, k) == cx0(sel(i), k)))
                prove('cached points have the certain label', forall(0, cnt, lambda i: cy1(i) == qa(sel(i))))
                cover('checked')
            prove('only certain labels are cached', forall(0, n1, lambda i: Or(cy1(i) == 0, cy1(i) == 1)))
            valid = p._pv_v
            if mv:
                prove('certain unknown points are inferred', valid)
                prove('once', z3.BoolVal(len(mv) == 1))
                ids = mv[0][1][0]
                A = p.ANS
                unk = Pts(w, w.nk, w.UNK)
                exp = unk.index[Arr.make((w.nk,), 'real', lambda j: A(w.UNK(j))) != 0.5]
                prove('exactly the certain unknown points', same_array(toarr(ids), exp))
                cover('inferred')
            else:
                prove('nothing to infer', Or(Not(valid), w.nk.t <= 0))
        return drv
    us.append(Unit(E, N + '.fit_data[empty cache]', d_fit(False)))
    us.append(Unit(E, N + '.fit_data', d_fit(True)))

    # ---------------------------------------------------------------- proposals
    def d_next():
        """the cache by its contract (verified in the unit TrainingSetCache): append adds rows, merge gives everything"""
        c = ctx()
        o, w, p, al = setup()
        cache = CacheStub(w, p, al)
        o._dsm_labeled_cache = cache
        al._pv_cache = cache
        v0 = p._pv_v
        sub = size('subsample', 1) if c.choose(2) else None
        n0 = cache.n
        r = o.next_points_to_label(w.data, sub)
        prove('no point changes its partition', z3.BoolVal(not w.did('move_to_inferred') and not w.did('remove_inferred')))
        prove('the polytope is not changed', z3.BoolVal(not [q for q in p._pv_calls if q[0] != 'predict']))
        prove('the learner is fitted on everything cached', t_(cache.n) == t_(cache.fitted))
        prove('the cache only grows', t_(cache.n) >= t_(n0))
        if isinstance(r, str):
            q = al.calls('next')
            prove('the learner proposes for the same data and sample size', z3.BoolVal(len(q) == 1 and q[0][1] is w.data and q[0][2] is sub))
            prove('the learner proposes only without unknown points or valid polytope', Or(Not(v0), w.nk.t <= 0))
            cover('learner')
            return
        prove('a proposal comes from the search', v0)
        n = dterm(r.n)
        prove('something is proposed', n >= 1)
        j = c.const('j', Int)
        assume(j >= 0, j < n)
        prove('only unlabeled points are proposed', w.inU(r.ids(j)))
        prove('only points the polytope is uncertain about are proposed', p.ANS(r.ids(j)) == HALF)
        if cache.last is not None:
            prove('candidates are sampled as requested', z3.BoolVal(all(s is sub for s in w.asked)))
        prove('every certain candidate was added to the training set', handled())
        cover('search')

    def handled():
        """the last candidates went into the cache, or the polytope is certain of none of them"""
        p, al, k = cell['p'], cell['al'], cell['o']._dsm_labeled_cache
        sel = al._pv_sel
        if sel is None or k.last is sel:
            return z3.BoolVal(True)
        A, ids = p.ANS, sel.ids
        return forall(0, dterm(sel.n), lambda i: A(ids(i)) == HALF, lambda i: [ids(i)])

    def nx_entry(L, g):
        g.n0 = t_(cell['o']._dsm_labeled_cache.n)

    def nx_inv(L, t, g):
        k = cell['o']._dsm_labeled_cache
        return [('the cache only grows', t_(k.n) >= g.n0), ('the learner is fitted on everything cached', t_(k.n) == t_(k.fitted)),
                ('every certain candidate was added to the training set', handled())]
    us.append(Unit(E, N + '.next_points_to_label', d_next, {N + '.next_points_to_label:while#1': LoopSpec(entry=nx_entry, inv=nx_inv)}))

    # ---------------------------------------------------------------- cache
    def d_cache():
        M = E.load(MOD)
        t = M.TrainingSetCache()
        prove('empty at first', t_(t.is_empty))
        d = size('d', 1)
        n, m = size('n', 1), size('m')
        A, a = mat('A', n, d), vec('a', n)
        t.append(A, a)
        prove('not empty', Not(t_(t.is_empty)))
        prove('points as appended', same_array(toarr(t.X), A))
        X, y = mat('X', m, d), vec('y', m)
        Z, z = t.merge(X, y)
        rz, rx, ra = Z.reader(), X.reader(), A.reader()
        sz, sy, sa = z.reader(), y.reader(), a.reader()
        prove('sizes', And(dterm(Z.shape[0]) == m.t + n.t, dterm(z.shape[0]) == m.t + n.t))
        prove('given points first', And(forall2(m.t, d.t, lambda i, k: rz(i, k) == rx(i, k)), forall(0, m.t, lambda i: sz(i) == sy(i))))
        prove('cached points behind', And(forall2(n.t, d.t, lambda i, k: rz(m.t + i, k) == ra(i, k)), forall(0, n.t, lambda i: sz(m.t + i) == sa(i))))
        B, b = mat('B', size('k'), d), None
        b = vec('b', B.shape[0])
        t2 = M.TrainingSetCache()
        t2.append(A, a)
        t2.append(B, b)
        Z, z = t2.merge(X, y)
        rz, rb, k = Z.reader(), B.reader(), dterm(B.shape[0])
        sz, sb = z.reader(), b.reader()
        prove('two appends: sizes', And(dterm(Z.shape[0]) == m.t + n.t + k, dterm(z.shape[0]) == m.t + n.t + k))
        prove('two appends: everything in order', And(forall2(n.t, d.t, lambda i, q: rz(m.t + i, q) == ra(i, q)), forall(0, n.t, lambda i: sz(m.t + i) == sa(i)),
                                                      forall2(k, d.t, lambda i, q: rz(m.t + n.t + i, q) == rb(i, q)), forall(0, k, lambda i: sz(m.t + n.t + i) == sb(i))))
        mask = vec('keep', n, 'bool')
        t.filter(mask)
        B, b = A[mask], a[mask]
        if ctx().branch(dterm(B.shape[0]) > 0):
            prove('exactly the chosen points stay', same_array(toarr(t.X), B))
            Z, z = t.merge(X, y)
            sz, sb = z.reader(), b.reader()
            prove('with their labels', forall(0, dterm(b.shape[0]), lambda i: sz(m.t + i) == sb(i)))
        else:
            prove('empty again', t_(t.is_empty))
        t.clear()
        prove('empty after a reset', t_(t.is_empty))
    us.append(Unit(E, 'TrainingSetCache', d_cache))

    def d_ctor():
        M, D = E.load(DSM), E.load('aideme.active_learning.dsm.model')
        w = World()
        al = Learner(w, None)
        if ctx().choose(2):
            o = M.DualSpaceModel(al, 'negative', 0.25, 1e-3)
            prove('plain polytope model', z3.BoolVal(type(o.polytope_model).__name__ == 'PolytopeModel' and type(o.polytope_model._pol).__name__ == 'FlippedPolytope'))
        else:
            o = M.FactorizedDualSpaceModel(al, 0.25, [[0], [1, 2]], ['negative', 'categorical'])
            kinds = lambda: [type(x).__name__ for x in o.polytope_model.polytope_models]
            prove('factorized polytope model', z3.BoolVal(list(o.polytope_model.partition) == [[0], [1, 2]] and kinds() == ['FlippedPolytope', 'CategoricalPolytope']))
            o.set_factorization_structure(partition=[[2], [0], [1]], mode=['multiset', 'positive', 'negative'])
            prove('new structure', z3.BoolVal(list(o.polytope_model.partition) == [[2], [0], [1]] and kinds() == ['MultiSetPolytope', 'Polytope', 'FlippedPolytope']))
        prove('learner and probability kept', z3.BoolVal(o.active_learner is al and o.sample_unknown_proba == 0.25))
    us.append(Unit(E, 'DualSpaceModel.__init__', d_ctor))
    return us


def units(E, prop_):
    return globals()['units_' + prop_](E)
