"""Contracts of the combined polytopes: FlippedPolytope, PersistentPolytope, PolytopeModel, FactorizedPolytopeModel (C13)."""
from .common import *

MOD = 'aideme.active_learning.dsm.polytope'
MDL = 'aideme.active_learning.dsm.model'

FUNCTIONS = {'C13': ['FlippedPolytope.*', 'PersistentPolytope.*', 'PolytopeModel.*', 'FactorizedPolytopeModel.*',
                     'PolytopeModelBase.get_polytope', 'PolytopeModelBase.update_data']}
ASSUMPTIONS = {'C13': ['the part polytopes by the contract of PolytopeBase (arbitrary answers in {0, 1/2, 1}, arbitrary success, '
                       'an invalid one answers 1/2 and stays invalid until cleared); the concrete ones are verified under C10-C12',
                       'the constructor is executed for every mode with 1 to 3 subspaces (concrete, finite)']}
HALF = z3.Q(1, 2)


def raised(fn, *exc):
    try:
        return fn(), None
    except exc as e:
        return None, e


class Pol(Opq):
    """contract of one polytope"""

    def __init__(self, base='pol', valid=None):
        self._pv_base = base
        self._pv_valid = symbool('valid_' + base).t if valid is None else z3.BoolVal(valid)
        self._pv_calls = []

    @property
    def is_valid(self):
        return wrap(self._pv_valid)

    def clear(self):
        self._pv_calls.append(('clear', None, None, None))
        self._pv_valid = z3.BoolVal(True)

    def update(self, X, y):
        prove('only valid polytopes are updated', self._pv_valid)
        self._pv_valid = symbool('after_' + self._pv_base).t
        r = wrap(self._pv_valid)
        self._pv_calls.append(('update', toarr(X).copy(), toarr(y).copy(), r))
        return r

    def predict(self, X):
        X = toarr(X)
        a = Arr.fresh('ans_' + self._pv_base, (X.shape[0],), 'real')
        rd, v = a.reader(), self._pv_valid
        assume(forall(0, dterm(X.shape[0]), lambda i: And(Or(rd(i) == 0, rd(i) == 1, rd(i) == HALF), Implies(Not(v), rd(i) == HALF)),
                      lambda i: [rd(i)]))
        self._pv_calls.append(('predict', X.copy(), a.copy(), None))
        return a

    def calls(self, kind):
        return [c for c in self._pv_calls if c[0] == kind]


class PolRef:
    """the i-th polytope of a list of any length"""
    __pvobject__ = True

    def __init__(self, lst, i):
        self._pv_l, self._pv_i = lst, i

    def pv_subst(self, pairs):
        return PolRef(self._pv_l, z3.simplify(z3.substitute(self._pv_i, *pairs)))

    @property
    def is_valid(self):
        return wrap(self._pv_l.V(self._pv_i))

    def clear(self):
        self._pv_l.put(self._pv_i, z3.BoolVal(True), self._pv_l.U(self._pv_i), self._pv_l.CL(self._pv_i) + 1)

    def update(self, X, y):
        c, l, i = ctx(), self._pv_l, self._pv_i
        prove('only valid polytopes are updated', l.V(i))
        l.check_update(i, toarr(X), toarr(y))
        if c.sub:
            if c.effects is None or len(c.sub) != 1 or any(k == 'branch' for k, _ in c.sub[-1].items):
                c.unsupported('a subspace polytope is updated from a lazily evaluated expression')
            c.effects.append(lambda b, dom: l.put_all(b, dom, i))
            return wrap(l.R(i))
        l.put(i, l.R(i), l.U(i) + 1, l.CL(i))
        return wrap(l.R(i))

    def predict(self, X):
        l, i = self._pv_l, self._pv_i
        X = toarr(X)
        l.check_cols(i, X)
        return Arr.make((X.shape[0],), 'real', lambda r: l.ANS(i, r))


class PolList(SymList):
    """V: valid, U: number of updates, CL: number of resets, R: outcome of the update, ANS: answers"""

    def __init__(self, n, X, y, cols, width, checked=True):
        SymList.__init__(self)
        c = ctx()
        self.items, self._n, self._fn = None, n, (lambda i: PolRef(self, as_term(i)))
        self.V, self.R, self.ANS = c.func('V', Int, Bool), c.func('R', Int, Bool), c.func('ANS', Int, Int, Real)
        self.U = lambda i: z3.IntVal(0)
        self.CL = lambda i: z3.IntVal(0)
        self.X, self.y, self.cols, self.width = X, y, cols, width

    def havoc_as(self, kind):
        c = ctx()
        self.V, self.U, self.CL = c.func('V', Int, Bool), c.func('U', Int, Int), c.func('CL', Int, Int)
        self.touch()

    def check_cols(self, i, A):
        ra, rx = A.reader(), self.X.reader()
        m = dterm(self.X.shape[0])
        prove('every subspace sees all points', dterm(A.shape[0]) == m)
        prove('every subspace sees as many columns as it has', dterm(A.shape[1]) == self.width(i))
        prove('every subspace sees its own columns', forall2(m, self.width(i), lambda r, k: ra(r, k) == rx(r, self.cols(i, k))))

    def check_update(self, i, A, b):
        self.check_cols(i, A)
        rb, ry = b.reader(), self.y.reader()
        m = dterm(self.X.shape[0])
        prove('one label per point', And(z3.BoolVal(b.ndim == 1), dterm(b.shape[0]) == m))
        prove('every subspace gets its own partial labels', forall(0, m, lambda r: rb(r) == ry(r, i)))

    def put(self, i, v, u, cl):
        c = ctx()
        if c.sub:
            c.unsupported('effect on a polytope of a list inside an expression')
        for nm, new, s in (('V', v, Bool), ('U', u, Int), ('CL', cl, Int)):
            old = getattr(self, nm)
            f = c.func(nm, Int, s)
            c.assume(f(i) == new, Forall([Int], lambda j: Or(j == i, f(j) == old(j)), lambda j: [f(j), old(j)]))
            setattr(self, nm, f)
        self.touch()

    def put_all(self, b, dom, i):
        """every element i(b), b in dom, was updated once (the same element is never named twice: obligation)"""
        c = ctx()
        at = lambda t, e: z3.substitute(t, (b, e))
        V, U, R = self.V, self.U, self.R
        V2, U2, of = c.func('V', Int, Bool), c.func('U', Int, Int), c.func('of', Int, Int)
        prove('no subspace is updated twice', Forall([Int, Int], lambda p, q: Implies(And(at(dom, p), at(dom, q), p != q), at(i, p) != at(i, q))))
        c.assume(Forall([Int], lambda j: Implies(at(dom, j), And(V2(at(i, j)) == R(at(i, j)), U2(at(i, j)) == U(at(i, j)) + 1)),
                        lambda j: [at(i, j)]))
        c.assume(Forall([Int], lambda k: Or(And(V2(k) == V(k), U2(k) == U(k)), And(at(dom, of(k)), at(i, of(k)) == k)), lambda k: [V2(k), U2(k)]))
        self.V, self.U = V2, U2
        self.touch()


def units_C13(E):
    us = []

    def batch(d=None):
        m, d = size('m'), size('d')
        return m, d, mat('X', m, d), vec('y', m)

    def same_call(what, got, X, y=None):
        prove('%s gets the points given' % what, same_array(got[1], X))
        if y is not None:
            prove('%s gets the labels given' % what, same_array(got[2], y))

    def one(cls):
        P = E.load(MOD)
        made = []

        def mk(tol=1e-12):
            p = Pol('p%d' % len(made))
            made.append(p)
            return p
        swap(P, 'Polytope', mk)
        o = getattr(P, cls)()
        for p in made:
            prove('a new polytope has done nothing', z3.BoolVal(not p._pv_calls))
        ctx().roots.append(('polytope', o))
        return o, made

    # ---------------------------------------------------------------- flipped
    def d_flip():
        o, (p,) = one('FlippedPolytope')
        v0 = p._pv_valid
        m, d, X, y = batch()
        prove('valid exactly when the original is', t_(o.is_valid) == v0)
        r = o.predict(X)
        prove('answers asked once', z3.BoolVal(len(p.calls('predict')) == 1))
        q = p.calls('predict')[0]
        same_call('the original', q, X)
        rr, ra = r.reader(), q[2].reader()
        prove('answers are exchanged', And(dterm(r.shape[0]) == m.t, forall(0, m.t, lambda i: rr(i) == 1 - ra(i))))
        cover('answered')
        if ctx().branch(v0):
            y0 = y.copy()
            s = o.update(X, y)
            prove('updated once', z3.BoolVal(len(p.calls('update')) == 1))
            q = p.calls('update')[0]
            same_call('the original', q, X)
            ry, rq = y0.reader(), q[2].reader()
            prove('labels are exchanged', And(dterm(q[2].shape[0]) == m.t, forall(0, m.t, lambda i: rq(i) == 1 - ry(i))))
            prove("the caller's labels are unchanged", same_array(y, y0))
            prove('success is that of the original', t_(s) == t_(q[3]))
            prove('still valid exactly when the original is', t_(o.is_valid) == p._pv_valid)
            cover('updated')
        o.clear()
        prove('a reset resets the original', z3.BoolVal(len(p.calls('clear')) == 1))
        prove('a reset polytope is valid', t_(o.is_valid))
    us.append(Unit(E, 'FlippedPolytope', d_flip))

    # ---------------------------------------------------------------- persistent
    def persist():
        o, made = one('PersistentPolytope')
        if len(made) != 2:
            ctx().unsupported('PersistentPolytope no longer has two alternatives')
        return o, made[0], made[1]

    def d_persist_predict():
        o, a, b = persist()
        m, d, X, y = batch()
        va, vb = a._pv_valid, b._pv_valid
        prove('valid while one alternative is', t_(o.is_valid) == Or(va, vb))
        r = o.predict(X)
        rr = r.reader()
        prove('one answer per row', dterm(r.shape[0]) == m.t)
        pa, pb = a.calls('predict'), b.calls('predict')
        if ctx().branch(va):
            prove('the first valid alternative is asked', z3.BoolVal(len(pa) >= 1))
            same_call('the first alternative', pa[-1], X)
            ra = pa[-1][2].reader()
            prove('answers of the first alternative', forall(0, m.t, lambda i: rr(i) == ra(i)))
            cover('first')
        elif ctx().branch(vb):
            prove('the second alternative is asked', z3.BoolVal(len(pb) >= 1))
            same_call('the second alternative', pb[-1], X)
            rb = pb[-1][2].reader()
            prove('exchanged answers of the second alternative', forall(0, m.t, lambda i: rr(i) == 1 - rb(i)))
            cover('second')
        else:
            prove('unknown when no alternative is valid', forall(0, m.t, lambda i: rr(i) == HALF))
        prove('answering changes nothing', And(a._pv_valid == va, b._pv_valid == vb, z3.BoolVal(not a.calls('update') and not b.calls('update'))))
    us.append(Unit(E, 'PersistentPolytope.predict', d_persist_predict))

    def d_persist_update():
        o, a, b = persist()
        m, d, X, y = batch()
        va, vb = a._pv_valid, b._pv_valid
        y0 = y.copy()
        r, err = raised(lambda: o.update(X, y), RuntimeError)
        ua, ub = a.calls('update'), b.calls('update')
        if err is not None:
            prove('refused only when no alternative is valid', Not(Or(va, vb)))
            return
        prove('refused when no alternative is valid', Or(va, vb))
        prove('the first alternative gets the batch exactly when valid', z3.BoolVal(len(ua) == 1) == va)
        prove('the second alternative gets the batch exactly when valid', z3.BoolVal(len(ub) == 1) == vb)
        prove('at most once each', z3.BoolVal(len(ua) <= 1 and len(ub) <= 1))
        if ua:
            same_call('the first alternative', ua[0], X, y0)
        if ub:
            same_call('the second alternative', ub[0], X)
            ry, rq = y0.reader(), ub[0][2].reader()
            prove('the second alternative gets exchanged labels', And(dterm(ub[0][2].shape[0]) == m.t, forall(0, m.t, lambda i: rq(i) == 1 - ry(i))))
        prove("the caller's labels are unchanged", same_array(y, y0))
        prove('success only when every valid alternative succeeded', t_(r) == And([t_(q[3]) for q in ua + ub]))
        prove('valid while one alternative is', t_(o.is_valid) == Or(a._pv_valid, b._pv_valid))
        cover('updated')
    us.append(Unit(E, 'PersistentPolytope.update', d_persist_update))

    def d_persist_clear():
        o, a, b = persist()
        o.clear()
        prove('both alternatives are reset', z3.BoolVal(len(a.calls('clear')) == 1 and len(b.calls('clear')) == 1))
        prove('valid again', t_(o.is_valid))
    us.append(Unit(E, 'PersistentPolytope.clear', d_persist_clear))

    # ---------------------------------------------------------------- whole model
    def d_model():
        M = E.load(MDL)
        o = M.PolytopeModel(['positive', 'negative', 'persist', 'categorical', 'multiset'][ctx().choose(5)])
        p = Pol('p')
        o._pol = p
        m, d, X, y = batch()
        prove('valid exactly when the polytope is', t_(o.is_valid) == p._pv_valid)
        r = o.predict(X)
        prove('the answers of the polytope', same_array(r, p.calls('predict')[0][2]))
        same_call('the polytope', p.calls('predict')[0], X)
        if ctx().branch(p._pv_valid):
            asked = []

            class Data(Opq):
                def last_training_set(self, get_partial=False):
                    asked.append(get_partial)
                    return X, y
            direct = ctx().choose(2)
            s = o.update(X, y) if direct else o.update_data(Data())
            if not direct:
                prove('final labels of the last batch', z3.BoolVal(asked == [False]))
            prove('one update', z3.BoolVal(len(p.calls('update')) == 1))
            same_call('the polytope', p.calls('update')[0], X, y)
            prove('success of the polytope', t_(s) == t_(p.calls('update')[0][3]))
        o.clear()
        prove('reset', z3.BoolVal(len(p.calls('clear')) == 1))
    us.append(Unit(E, 'PolytopeModel', d_model))

    MODES = {'positive': 'Polytope', 'negative': 'FlippedPolytope', 'persist': 'PersistentPolytope',
             'categorical': 'CategoricalPolytope', 'multiset': 'MultiSetPolytope'}

    def d_new():
        M = E.load(MDL)
        names = sorted(MODES)
        k = ctx().choose(len(names))
        mode = names[k]
        n = ctx().choose(4)
        part = [[0], [2, 1], [3]][:n] or None
        exp = max(n, 1)
        nm = lambda p: type(p).__name__
        o = M.FactorizedPolytopeModel(part, mode)
        pols = list(o.polytope_models.items if isinstance(o.polytope_models, SymList) else o.polytope_models)
        prove('one polytope of the given mode per subspace', z3.BoolVal([nm(p) for p in pols] == [MODES[mode]] * exp))
        prove('the polytopes are separate', z3.BoolVal(len({id(p) for p in pols}) == exp))
        ms = [names[(k + j) % len(names)] for j in range(exp)]
        o = M.FactorizedPolytopeModel(part, ms)
        pols = list(o.polytope_models.items if isinstance(o.polytope_models, SymList) else o.polytope_models)
        prove('one polytope per mode in order', z3.BoolVal([nm(p) for p in pols] == [MODES[m] for m in ms]))
        r, err = raised(lambda: M.FactorizedPolytopeModel(part, ms + ['positive']), ValueError)
        prove('a mode too many is rejected', z3.BoolVal(err is not None))
        r, err = raised(lambda: M.FactorizedPolytopeModel(part, 'convex'), ValueError)
        prove('unknown modes are rejected', z3.BoolVal(err is not None))
        prove('valid at first', And(t_(o.is_valid), t_(o.is_all_valid)))
        o1 = M.PolytopeModel(mode)
        prove('the polytope of the given mode', z3.BoolVal(nm(o1._pol) == MODES[mode]))
    us.append(Unit(E, 'FactorizedPolytopeModel.__init__', d_new))

    # ---------------------------------------------------------------- factorized, any number of subspaces
    cell = {}

    def fact():
        M = E.load(MDL)
        c = ctx()
        o = M.FactorizedPolytopeModel.__new__(M.FactorizedPolytopeModel)
        o.__init__([[0]], 'positive')
        for nm in ('partition', 'polytope_models'):
            if not hasattr(o, nm):
                c.unsupported('the representation of FactorizedPolytopeModel has no %s' % nm)
        n, m, d = size('parts', 1), size('m'), size('d', 1)
        X, Y = mat('X', m, d), mat('Y', m, n)
        W, C = c.func('W', Int, Int), c.func('C', Int, Int, Int)
        assume(Forall([Int], lambda i: W(i) >= 0, lambda i: [W(i)]),
               Forall([Int, Int], lambda i, k: And(C(i, k) >= 0, C(i, k) < d.t), lambda i, k: [C(i, k)]))
        o.partition = SymList.of(n, lambda i: Arr.make((dim_wrap(W(as_term(i))),), 'int', lambda k: C(as_term(i), k)))
        l = PolList(n, X, Y, C, W)
        o.polytope_models = l
        # an invalid polytope answers unknown
        assume(Forall([Int, Int], lambda i, r: And(Or(l.ANS(i, r) == 0, l.ANS(i, r) == 1, l.ANS(i, r) == HALF),
                                                   Implies(Not(l.V(i)), l.ANS(i, r) == HALF)), lambda i, r: [l.ANS(i, r)]))
        c.roots.append(('model', o))
        cell.clear()
        cell.update(l=l, n=n, m=m, d=d)
        return o, l, n, m, d, X, Y

    inr = lambda i, n: And(i >= 0, i < n.t)

    def d_valid():
        o, l, n, m, d, X, Y = fact()
        prove('valid while a subspace is', t_(o.is_valid) == Exists([Int], lambda i: And(inr(i, n), l.V(i)), lambda i: [l.V(i)]))
        prove('all valid exactly when every subspace is', t_(o.is_all_valid) == forall(0, n.t, lambda i: l.V(i), lambda i: [l.V(i)]))
    us.append(Unit(E, 'FactorizedPolytopeModel.is_valid', d_valid))

    def d_fupdate():
        o, l, n, m, d, X, Y = fact()
        V0, R = l.V, l.R
        X0, Y0 = X.copy(), Y.copy()
        class Data(Opq):
            def last_training_set(self, get_partial=False):
                asked.append(get_partial)
                return X, Y
        asked = []
        direct = ctx().choose(2)
        r, err = raised((lambda: o.update(X, Y)) if direct else (lambda: o.update_data(Data())), RuntimeError)
        some = Exists([Int], lambda i: And(inr(i, n), V0(i)), lambda i: [V0(i)])
        if err is not None:
            prove('refused only when no subspace is valid', Not(some))
            return
        if not direct:
            prove('partial labels of the last batch', z3.BoolVal(asked == [True]))
        prove('refused when no subspace is valid', some)
        i = ctx().const('i', Int)
        assume(inr(i, n))
        prove('every valid subspace is updated exactly once', Implies(V0(i), And(l.U(i) == 1, l.V(i) == R(i))))
        prove('invalid subspaces are left alone', Implies(Not(V0(i)), And(l.U(i) == 0, Not(l.V(i)))))
        prove('success only when every valid subspace succeeded', Implies(t_(r), Implies(V0(i), R(i))))
        prove('failure only when a valid subspace failed', Or(t_(r), Exists([Int], lambda j: And(inr(j, n), V0(j), Not(R(j))), lambda j: [V0(j)])))
        prove("the caller's data are unchanged", And(same_array(X, X0), same_array(Y, Y0)))
        cover('updated')
    us.append(Unit(E, 'FactorizedPolytopeModel.update', d_fupdate))

    def pred_entry(L, g):
        g.p0 = L.prediction.reader()

    def pred_inv(L, t, g):
        l, n, m = cell['l'], cell['n'], cell['m']
        p = L.prediction.reader()
        A = lambda j, r: l.ANS(idx_of(g.elem(j)), r)
        return [('one answer per row', dterm(L.prediction.shape[0]) == m.t),
                ('at most the start', forall(0, m.t, lambda r: p(r) <= g.p0(r), lambda r: [p(r)])),
                ('at most every treated answer', Forall([Int, Int], lambda j, r: Implies(And(j >= 0, j < t, r >= 0, r < m.t), p(r) <= A(j, r)), lambda j, r: [mp(p(r), A(j, r))])),
                ('one of them', forall(0, m.t, lambda r: Or(p(r) == g.p0(r), Exists([Int], lambda j: And(j >= 0, j < t, p(r) == A(j, r)), lambda j: [A(j, r)])), lambda r: [p(r)]))]

    def idx_of(e):
        """the index of the polytope among the values the loop runs over"""
        for x in (e if isinstance(e, tuple) else (e,)):
            if isinstance(x, PolRef):
                return x._pv_i
            if isinstance(x, tuple):
                try:
                    return idx_of(x)
                except TypeError:
                    continue
        raise TypeError('no polytope')

    def d_fpredict():
        o, l, n, m, d, X, Y = fact()
        X0 = X.copy()
        allv = forall(0, n.t, lambda i: l.V(i), lambda i: [l.V(i)])
        r = o.predict(X)
        rr = r.reader()
        prove('one answer per row', dterm(r.shape[0]) == m.t)
        j, i = ctx().const('j', Int), ctx().const('i', Int)
        assume(j >= 0, j < m.t, inr(i, n))
        prove('at most the answer of every valid subspace', Implies(l.V(i), rr(j) <= l.ANS(i, j)))
        prove('at most unknown when some subspace is invalid', Implies(Not(l.V(i)), rr(j) <= HALF))
        ans = Exists([Int], lambda k: And(inr(k, n), l.V(k), rr(j) == l.ANS(k, j)), lambda k: [l.ANS(k, j)])
        prove('the least of these', Or(ans, And(allv, rr(j) == 1), And(Not(allv), rr(j) == HALF)))
        prove("the caller's data are unchanged", same_array(X, X0))
        cover('answered')
    us.append(Unit(E, 'FactorizedPolytopeModel.predict', d_fpredict, {'FactorizedPolytopeModel.predict:for#1': LoopSpec(entry=pred_entry, inv=pred_inv)}))

    def part_inv(L, t, g):
        l, n, m = cell['l'], cell['n'], cell['m']
        p = L.partial_labels.reader()
        I = lambda j: idx_of(g.elem(j))
        return [('shape', And(dterm(L.partial_labels.shape[0]) == m.t, dterm(L.partial_labels.shape[1]) == n.t)),
                ('unknown or the answer', Forall([Int, Int], lambda r, k: Implies(And(r >= 0, r < m.t, inr(k, n)), Or(
                    p(r, k) == HALF, And(l.V(k), p(r, k) == l.ANS(k, r)))), lambda r, k: [p(r, k)])),
                ('treated subspaces', Forall([Int, Int], lambda j, r: Implies(And(j >= 0, j < t, r >= 0, r < m.t), p(r, I(j)) == l.ANS(I(j), r)),
                                             lambda j, r: [p(r, I(j)), l.ANS(I(j), r)]))]

    def d_fpartial():
        o, l, n, m, d, X, Y = fact()
        r = o.predict_partial(X)
        rr = r.reader()
        prove('one answer per row and subspace', And(dterm(r.shape[0]) == m.t, dterm(r.shape[1]) == n.t))
        j, i = ctx().const('j', Int), ctx().const('i', Int)
        assume(j >= 0, j < m.t, inr(i, n))
        prove('every valid subspace answers in its own column', Implies(l.V(i), rr(j, i) == l.ANS(i, j)))
        prove('unknown for invalid subspaces', Implies(Not(l.V(i)), rr(j, i) == HALF))
        cover('answered')
    us.append(Unit(E, 'FactorizedPolytopeModel.predict_partial', d_fpartial, {'FactorizedPolytopeModel.predict_partial:for#1': LoopSpec(inv=part_inv)}))

    def clear_inv(L, t, g):
        l, n = cell['l'], cell['n']
        return [('treated subspaces are reset', forall(0, t, lambda i: And(l.CL(i) == 1, l.V(i)), lambda i: [l.CL(i), l.V(i)])),
                ('the others not yet', forall(t, n.t, lambda i: l.CL(i) == 0, lambda i: [l.CL(i)]))]

    def d_fclear():
        o, l, n, m, d, X, Y = fact()
        o.clear()
        prove('every subspace is reset once', forall(0, n.t, lambda i: And(l.CL(i) == 1, l.V(i))))
        prove('all valid again', And(t_(o.is_valid), t_(o.is_all_valid)))
    us.append(Unit(E, 'FactorizedPolytopeModel.clear', d_fclear, {'FactorizedPolytopeModel.clear:for#1': LoopSpec(inv=clear_inv)}))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
