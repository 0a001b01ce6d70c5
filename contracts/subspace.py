"""Contracts of the subspace learners and of the polytope-based learners (C24)."""
from pyvc.reduce import equate_sums, link_sums, reduce1, sum_rule

from .common import *
from .explore import raised
from .kernels import total
from .vspace import rows_of
from .sampler import method, restub, restub1
from .small import HALF

FUNCTIONS = {'C24': ['SubspaceLearner.*', 'SubspatialVersionSpace.*', 'SubspatialSimpleMargin.__init__', 'Cloneable.*', 'PolytopeLearner.*',
                     'CategoricalActiveLearner.__init__', 'MultiSetActiveLearner.__init__']}
ASSUMPTIONS = {'C24': ['the subspace models by contract: arbitrary answers (labels 0 or 1), a copy per call of clone()',
                       'the constructors are executed for one to three subspaces in every combination of modes (concrete, finite)',
                       'finite sums and products depend only on their terms (extensionality)',
                       'the polytope behind a polytope learner by contract (C10, C11)']}
SUB = 'aideme.active_learning.version_space.subspace'
CAT = 'aideme.active_learning.version_space.categorical'
KINDS = ('predict', 'predict_proba', 'rank')


class Fn:
    """a bound method of the i-th model"""
    __pvobject__ = True

    def __init__(self, l, i, kind):
        self._pv_l, self._pv_i, self._pv_k = l, i, kind

    def pv_subst(self, pairs):
        return Fn(self._pv_l, z3.simplify(z3.substitute(self._pv_i, *pairs)), self._pv_k)

    def __call__(self, X):
        l, i = self._pv_l, self._pv_i
        X = toarr(X)
        l.check_cols(i, X)
        return Arr.make((X.shape[0],), 'real', lambda r: l.ANS[self._pv_k](i, r))


class Ref:
    """the i-th model of a list of any length"""
    __pvobject__ = True

    def __init__(self, l, i):
        self._pv_l, self._pv_i = l, i

    def pv_subst(self, pairs):
        return Ref(self._pv_l, z3.simplify(z3.substitute(self._pv_i, *pairs)))

    predict = property(lambda s: Fn(s._pv_l, s._pv_i, 'predict'))
    predict_proba = property(lambda s: Fn(s._pv_l, s._pv_i, 'predict_proba'))
    rank = property(lambda s: Fn(s._pv_l, s._pv_i, 'rank'))

    def fit(self, X, y):
        l, i = self._pv_l, self._pv_i
        l.check_cols(i, toarr(X))
        A = toarr(y)
        ra, ry = A.reader(), l.y.reader()
        m = dterm(l.X.shape[0])
        prove('one partial label per point', And(z3.BoolVal(A.ndim == 1), dterm(A.shape[0]) == m))
        prove('every subspace gets its own partial labels', forall(0, m, lambda r: ra(r) == ry(r, i)))
        l.put(i, l.F(i) + 1, l.CL(i))

    def clear(self):
        l, i = self._pv_l, self._pv_i
        l.put(i, l.F(i), l.CL(i) + 1)


class Models(SymList):
    """F: number of fits, CL: number of resets, ANS: answers"""

    def __init__(self, n, X, y, cols, width):
        SymList.__init__(self)
        c = ctx()
        self.items, self._n, self._fn = None, n, (lambda i: Ref(self, as_term(i)))
        self.ANS = {k: c.func('ans_' + k, Int, Int, Real) for k in KINDS}
        self.F = self.CL = lambda i: z3.IntVal(0)
        self.X, self.y, self.cols, self.width = X, y, cols, width

    def havoc_as(self, kind):
        c = ctx()
        self.F, self.CL = c.func('F', Int, Int), c.func('CL', Int, Int)
        self.touch()

    def check_cols(self, i, A):
        ra, rx = A.reader(), self.X.reader()
        m = dterm(self.X.shape[0])
        prove('every subspace sees all points', dterm(A.shape[0]) == m)
        prove('every subspace sees as many columns as it has', dterm(A.shape[1]) == self.width(i))
        prove('every subspace sees its own columns', forall2(m, self.width(i), lambda r, k: ra(r, k) == rx(r, self.cols(i, k))))

    def put(self, i, f, cl):
        c = ctx()
        if c.sub:
            c.unsupported('effect on a model of a list inside an expression')
        for nm, new in (('F', f), ('CL', cl)):
            old = getattr(self, nm)
            g = c.func(nm, Int, Int)
            c.assume(g(i) == new, Forall([Int], lambda j: Or(j == i, g(j) == old(j)), lambda j: [g(j)]))
            setattr(self, nm, g)
        self.touch()


def one(c):
    return If(c, z3.RealVal(1), z3.RealVal(0))


class Template(Opq):
    """a model passed by the user; its copies know where they come from"""

    def __init__(self, made=None):
        self._pv_made, self._pv_used = [] if made is None else made, []

    def clone(self):
        m = Template(None)
        self._pv_made.append(m)
        return m

    def _use(self, *a):
        self._pv_used.append(a)
    fit = predict = predict_proba = rank = clear = fit_data = _use


def items_of(x):
    return list(x.items) if isinstance(x, SymList) else list(x)


def units_C24(E):
    us = []
    cell = {}

    def fresh(make):
        """a learner over any number of subspaces"""
        c = ctx()
        M = E.load(SUB)
        o = make(M)
        for nm in ('partition', 'learners'):
            if not hasattr(o, nm):
                c.unsupported('the representation of SubspaceLearner has no %s' % nm)
        n, m, d = size('parts', 1), size('m'), size('d', 1)
        X, Y = mat('X', m, d), mat('Y', m, n)
        W, C = c.func('W', Int, Int), c.func('C', Int, Int, Int)
        assume(Forall([Int], lambda i: W(i) >= 0, lambda i: [W(i)]),
               Forall([Int, Int], lambda i, k: And(C(i, k) >= 0, C(i, k) < d.t), lambda i, k: [C(i, k)]))
        o.partition = SymList.of(n, lambda i: Arr.make((dim_wrap(W(as_term(i))),), 'int', lambda k: C(as_term(i), k)))
        l = Models(n, X, Y, C, W)
        A = l.ANS['predict']
        assume(Forall([Int, Int], lambda i, r: Or(A(i, r) == 0, A(i, r) == 1), lambda i, r: [A(i, r)]))
        o.learners = l
        c.roots.append(('learner', o))
        cell.clear()
        cell.update(l=l, n=n, m=m, d=d)
        return o, l, n, m, d, X, Y

    inr = lambda i, n: And(i >= 0, i < n.t)
    plain = lambda **k: (lambda M: M.SubspaceLearner(Template(), None, **k))

    # ---------------------------------------------------------------- fitting
    def fit_inv(L, t, g):
        l, n = cell['l'], cell['n']
        return [('treated subspaces are fitted once', forall(0, t, lambda i: l.F(i) == 1, lambda i: [l.F(i)])),
                ('the others not yet', forall(t, n.t, lambda i: l.F(i) == 0, lambda i: [l.F(i)])),
                ('none is reset', forall(0, n.t, lambda i: l.CL(i) == 0, lambda i: [l.CL(i)]))]

    def d_fit():
        o, l, n, m, d, X, Y = fresh(plain())
        X0, Y0 = X.copy(), Y.copy()
        o.fit(X, Y)
        prove('every subspace is fitted once', forall(0, n.t, lambda i: l.F(i) == 1))
        prove("the caller's data are unchanged", And(same_array(X, X0), same_array(Y, Y0)))
        cover('fitted')
    us.append(Unit(E, 'SubspaceLearner.fit', d_fit, {'SubspaceLearner.fit:for#1': LoopSpec(inv=fit_inv)}))

    def clear_inv(L, t, g):
        l, n = cell['l'], cell['n']
        return [('treated subspaces are reset', forall(0, t, lambda i: l.CL(i) == 1, lambda i: [l.CL(i)])),
                ('the others not yet', forall(t, n.t, lambda i: l.CL(i) == 0, lambda i: [l.CL(i)]))]

    def d_clear():
        o, l, n, m, d, X, Y = fresh(plain())
        o.clear()
        prove('every subspace is reset once', forall(0, n.t, lambda i: l.CL(i) == 1))
    us.append(Unit(E, 'SubspaceLearner.clear', d_clear, {'SubspaceLearner.clear:for#1': LoopSpec(inv=clear_inv)}))

    # ---------------------------------------------------------------- answers of all subspaces
    LOOP = 'SubspaceLearner.__compute_over_all_subspaces:for#1'

    def all_inv(kind):
        def inv(L, t, g):
            l, n, m = cell['l'], cell['n'], cell['m']
            p, A = L['values'].reader(), l.ANS[kind]
            return [('shape', And(dterm(L['values'].shape[0]) == n.t, dterm(L['values'].shape[1]) == m.t)),
                    ('treated subspaces', Forall([Int, Int], lambda i, r: Implies(And(i >= 0, i < t, r >= 0, r < m.t), p(i, r) == A(i, r)),
                                                 lambda i, r: [p(i, r), A(i, r)]))]
        return {LOOP: LoopSpec(inv=inv)}

    def unchanged(l, n, X, X0):
        prove('no model is fitted or reset', forall(0, n.t, lambda i: And(l.F(i) == 0, l.CL(i) == 0)))
        prove("the caller's data are unchanged", same_array(X, X0))

    def d_all(kind):
        def drv():
            o, l, n, m, d, X, Y = fresh(plain())
            X0 = X.copy()
            r = toarr(getattr(o, kind + '_all')(X))
            rr, A = r.reader(), l.ANS[kind]
            prove('one row per subspace and one column per point', And(z3.BoolVal(r.ndim == 2), dterm(r.shape[0]) == n.t, dterm(r.shape[1]) == m.t))
            prove('the answers of every subspace in its own row', forall2(n.t, m.t, lambda i, j: rr(i, j) == A(i, j)))
            unchanged(l, n, X, X0)
            cover('answered')
        return drv
    for kind in KINDS:
        us.append(Unit(E, 'SubspaceLearner.%s_all' % kind, d_all(kind), all_inv(kind)))

    # ---------------------------------------------------------------- connectors
    def at(o, call, m):
        r = toarr(call)
        prove('one answer per point', And(z3.BoolVal(r.ndim == 1), dterm(r.shape[0]) == m.t))
        j = ctx().const('j', Int)
        assume(j >= 0, j < m.t)
        return j, to_real(r.at(j))

    def product(f, n):
        return reduce1('prod', f, dim_wrap(n.t), 'real')

    def least(v, A, n, j, le, what):
        i = ctx().const('i', Int)
        prove('%s of all subspaces' % what, Implies(inr(i, n), le(v, A(i, j))))
        prove('the value of one of them', Exists([Int], lambda i: And(inr(i, n), v == A(i, j)), lambda i: [A(i, j)]))

    def d_label(how):
        def drv():
            o, l, n, m, d, X, Y = fresh(plain(label_function=how))
            X0 = X.copy()
            A = l.ANS['predict']
            j, v = at(o, o.predict(X), m)
            if how.upper() == 'AND':
                prove('positive exactly when every subspace is', v == one(forall(0, n.t, lambda i: A(i, j) == 1, lambda i: [A(i, j)])))
            else:
                prove('positive exactly when some subspace is', v == one(Exists([Int], lambda i: And(inr(i, n), A(i, j) == 1), lambda i: [A(i, j)])))
            unchanged(l, n, X, X0)
            cover('answered')
        return drv
    for how in ('AND', 'OR', 'and'):
        us.append(Unit(E, 'SubspaceLearner.predict (%s)' % how, d_label(how), all_inv('predict')))

    def d_default():
        """the defaults: AND, MIN, SQUARE"""
        o, l, n, m, d, X, Y = fresh(plain())
        A = l.ANS['predict']
        j, v = at(o, o.predict(X), m)
        prove('by default positive exactly when every subspace is', v == one(forall(0, n.t, lambda i: A(i, j) == 1, lambda i: [A(i, j)])))
    us.append(Unit(E, 'SubspaceLearner.predict (default)', d_default, all_inv('predict')))

    def d_proba(how, label=None):
        def drv():
            k = {} if how is None else {'probability_function': how}
            o, l, n, m, d, X, Y = fresh(plain(label_function=label, **k))
            X0 = X.copy()
            A = l.ANS['predict_proba']
            if label is None:
                p = toarr(o.predict_proba(X))
                j, v = at(o, o.predict(X), m)
                prove('positive exactly when the probability is above one half', v == one(to_real(p.at(j)) > HALF))
                v = to_real(p.at(j))
            else:
                j, v = at(o, o.predict_proba(X), m)
            if how in (None, 'MIN', 'min'):
                least(v, A, n, j, lambda a, b: a <= b, 'at most that')
            elif how == 'MAX':
                least(v, A, n, j, lambda a, b: a >= b, 'at least that')
            else:
                w = product(lambda i: A(i, j), n)
                equate_sums(j)
                prove('the product over the subspaces', v == w)
            unchanged(l, n, X, X0)
            cover('answered')
        return drv
    for how in (None, 'MIN', 'MAX', 'PROD', 'min'):
        us.append(Unit(E, 'SubspaceLearner.predict_proba (%s)' % how, d_proba(how, 'AND'), all_inv('predict_proba')))
    us.append(Unit(E, 'SubspaceLearner.predict (no label function)', d_proba('MIN'), all_inv('predict_proba')))

    def d_rank(how):
        def drv():
            k = {} if how is None else {'ranking_function': how}
            o, l, n, m, d, X, Y = fresh(plain(**k))
            X0 = X.copy()
            A = l.ANS['rank']
            j, v = at(o, o.rank(X), m)
            w = total(lambda i: A(i, j) if how == 'SUM' else A(i, j) * A(i, j), n)
            equate_sums(j)
            prove('the sum over the subspaces' if how == 'SUM' else 'the sum of squares over the subspaces', v == w)
            unchanged(l, n, X, X0)
            cover('answered')
        return drv
    for how in (None, 'SUM', 'SQUARE'):
        us.append(Unit(E, 'SubspaceLearner.rank (%s)' % how, d_rank(how), all_inv('rank')))

    def d_callables():
        got = {}

        def f(name):
            def g(V):
                V = toarr(V)
                got[name] = V.copy()
                r = vec('combined', V.shape[1])
                got['r' + name] = r.copy()
                return r
            return g
        o, l, n, m, d, X, Y = fresh(plain(label_function=f('predict'), probability_function=f('predict_proba'), ranking_function=f('rank')))
        which = KINDS[ctx().choose(3)]
        cell['kind'] = which
        r = getattr(o, which)(X)
        prove('only its own function is called', z3.BoolVal(sorted(got) == sorted([which, 'r' + which])))
        V = got[which]
        rv, A = V.reader(), l.ANS[which]
        prove('the function gets the answers of the subspaces in order', And(dterm(V.shape[0]) == n.t, dterm(V.shape[1]) == m.t, forall2(
            n.t, m.t, lambda i, j: rv(i, j) == A(i, j))))
        prove('its value is the answer', same_array(toarr(r), got['r' + which]))
        cover('answered')

    def any_inv(L, t, g):
        return all_inv(cell['kind'])[LOOP].inv(L, t, g)
    us.append(Unit(E, 'SubspaceLearner (callables)', d_callables, {LOOP: LoopSpec(inv=any_inv)}))

    # ---------------------------------------------------------------- the version space flavour: ranks from probabilities
    def vs(M, **k):
        class KV(Template):
            def __init__(self, **kw):
                Template.__init__(self)
                self._pv_kw = kw
        swap(M, 'KernelVersionSpace', KV)
        return M.SubspatialVersionSpace(**k)

    def d_loss(how):
        def drv():
            k = {} if how is None else {'loss': how}
            o, l, n, m, d, X, Y = fresh(lambda M: vs(M, **k))
            X0 = X.copy()
            A = l.ANS['predict_proba']
            j, v = at(o, o.rank(X), m)
            if how in (None, 'GREEDY'):
                w = product(lambda i: 1 - 2 * A(i, j) * (1 - A(i, j)), n)
            elif how == 'SQUARE':
                w = total(lambda i: (A(i, j) - HALF) * (A(i, j) - HALF), n)
            else:
                p = product(lambda i: A(i, j), n)
            equate_sums(j)
            if how == 'PRODUCT':
                w = If(p >= HALF, p - HALF, HALF - p)
            prove('the documented combination of the probabilities', v == w)
            unchanged(l, n, X, X0)
            cover('answered')
        return drv
    for how in (None, 'GREEDY', 'SQUARE', 'PRODUCT'):
        us.append(Unit(E, 'SubspatialVersionSpace.rank (%s)' % how, d_loss(how), all_inv('predict_proba')))

    def d_vslabel(how):
        def drv():
            k = {} if how is None else {'label_function': how}
            o, l, n, m, d, X, Y = fresh(lambda M: vs(M, **k))
            c = ctx()
            if c.choose(2):
                cell['kind'] = 'predict_proba'
                A = l.ANS['predict_proba']
                j, v = at(o, o.predict_proba(X), m)
                if how == 'AND':
                    least(v, A, n, j, lambda a, b: a <= b, 'at most that')
                elif how == 'OR':
                    least(v, A, n, j, lambda a, b: a >= b, 'at least that')
                else:
                    w = product(lambda i: A(i, j), n)
                    equate_sums(j)
                    prove('the product over the subspaces', v == w)
                return
            cell['kind'] = 'predict' if how in ('AND', 'OR') else 'predict_proba'
            j, v = at(o, o.predict(X), m)
            A = l.ANS[cell['kind']]
            if how == 'AND':
                prove('positive exactly when every subspace is', v == one(forall(0, n.t, lambda i: A(i, j) == 1, lambda i: [A(i, j)])))
            elif how == 'OR':
                prove('positive exactly when some subspace is', v == one(Exists([Int], lambda i: And(inr(i, n), A(i, j) == 1), lambda i: [A(i, j)])))
            else:
                w = product(lambda i: A(i, j), n)
                equate_sums(j)
                prove('positive exactly when the product is above one half', v == one(w > HALF))
        return drv
    for how in (None, 'AND', 'OR', 'PROD'):
        us.append(Unit(E, 'SubspatialVersionSpace.predict (%s)' % how, d_vslabel(how), {LOOP: LoopSpec(inv=any_inv)}))

    # ---------------------------------------------------------------- construction and structure changes
    PARTS = [None, [[0]], [[0], [2, 1]], [[3], [0], [1, 2]]]

    def d_structure():
        M = E.load(SUB)
        c = ctx()
        T = Template()
        p0, p1 = PARTS[c.choose(4)], PARTS[c.choose(4)]
        o = M.SubspaceLearner(T, p0)

        def right(p, before):
            k = 1 if p is None else len(p)
            ls = items_of(o.learners)
            new = T._pv_made[before:]
            prove('one copy of the template per subspace', z3.BoolVal(len(ls) == k and len(new) == k and {id(x) for x in ls} == {id(x) for x in new}))
            q = items_of(o.partition)
            if p is None:
                prove('a single subspace of all columns by default', z3.BoolVal(q == [slice(None)]))
            else:
                prove('the given subspaces in order', z3.BoolVal([list(x) for x in q] == p))
            prove('the template is neither fitted nor modified', z3.BoolVal(not T._pv_used))
        right(p0, 0)
        before = len(T._pv_made)
        if p1 is None and c.choose(2):
            o.set_factorization_structure()
        else:
            o.set_factorization_structure(partition=p1)
        right(p1, before)
    us.append(Unit(E, 'SubspaceLearner.set_factorization_structure', d_structure))

    def d_single():
        """without a partition every model sees all columns"""
        M = E.load(SUB)
        seen = []

        class One(Template):
            def clone(self):
                return One()

            def fit(self, X, y):
                seen.append((toarr(X).copy(), toarr(y).copy()))
        o = M.SubspaceLearner(One())
        m, d = size('m'), size('d', 1)
        X, Y = mat('X', m, d), mat('Y', m, 1)
        o.fit(X, Y)
        ry, rb = Y.reader(), seen[0][1].reader()
        prove('one model on all columns', z3.BoolVal(len(seen) == 1))
        prove('all columns', same_array(seen[0][0], X))
        prove('its labels', And(dterm(seen[0][1].shape[0]) == m.t, forall(0, m.t, lambda r: rb(r) == ry(r, z3.IntVal(0)))))
    us.append(Unit(E, 'SubspaceLearner.fit (single subspace)', d_single))

    def d_few():
        """fewer label columns than subspaces"""
        M = E.load(SUB)
        o = M.SubspaceLearner(Template(), [[0], [1], [0, 1]])
        m = size('m', 1)
        for k in (1, 2):
            r, err = raised(lambda: o.fit(mat('X', m, 2), mat('Y', m, k)), IndexError)
            prove('labels with too few columns are rejected', z3.BoolVal(err is not None))
        r, err = raised(lambda: M.SubspaceLearner(Template(), None, label_function='XOR'), KeyError)
        prove('unknown connectors are rejected', z3.BoolVal(err is not None))
    us.append(Unit(E, 'SubspaceLearner (mismatches)', d_few))

    MODES = ['numerical', 'categorical', 'multiset', 'positive', 'negative', 'persist']

    def d_modes():
        M = E.load(SUB)
        c = ctx()
        made = {'cat': [], 'multi': [], 'num': []}

        def rec(kind):
            class R(Template):
                def __init__(self, *a, **kw):
                    Template.__init__(self)
                    self._pv_kind, self._pv_kw = kind, kw
                    made[kind].append(self)
            return R
        swap(M, 'KernelVersionSpace', rec('num'))
        swap(M, 'CategoricalActiveLearner', rec('cat'))
        swap(M, 'MultiSetActiveLearner', rec('multi'))
        p = PARTS[c.choose(4)]
        k = 1 if p is None else len(p)
        numerical_only = bool(c.choose(2))
        first = c.choose(len(MODES))
        ms = [MODES[(first + j) % len(MODES)] for j in range(k)]
        single = bool(c.choose(2))
        g, ns = symreal('gamma'), symint('samples')
        mode = ms[0].upper() if single else ms
        o = M.SubspatialVersionSpace(partition=p, mode=mode, numerical_only=numerical_only, gamma=g, n_samples=ns, add_intercept=False)
        exp = [ms[0]] * k if single else ms
        kinds = ['num' if numerical_only or m_ not in ('categorical', 'multiset') else {'categorical': 'cat', 'multiset': 'multi'}[m_] for m_ in exp]
        ls = items_of(o.learners)
        prove('one model of the mode of every subspace in order', z3.BoolVal([x._pv_kind for x in ls] == kinds))
        prove('the models are separate', z3.BoolVal(len({id(x) for x in ls}) == k))
        prove('the options reach the numerical models', z3.BoolVal(all(x._pv_kw.get('gamma') is g and x._pv_kw.get('n_samples') is ns
                                                                      and x._pv_kw.get('add_intercept') is False for x in ls if x._pv_kind == 'num')))
        q = items_of(o.partition)
        prove('the subspaces in order', z3.BoolVal(q == [slice(None)] if p is None else [list(x) for x in q] == p))
        r, err = raised(lambda: o.set_factorization_structure(partition=p, mode=ms + ['numerical']), ValueError)
        prove('a mode too many is rejected', z3.BoolVal(err is not None))
        if k > 1:
            r, err = raised(lambda: o.set_factorization_structure(partition=p, mode=ms[:-1]), ValueError)
            prove('a mode too few is rejected', z3.BoolVal(err is not None))
        if not numerical_only:
            r, err = raised(lambda: o.set_factorization_structure(partition=p, mode='ordinal'), ValueError)
            prove('an unknown mode is rejected', z3.BoolVal(err is not None))
        o.set_factorization_structure(partition=p, mode=exp[::-1])
        prove('a new structure brings new models in order', z3.BoolVal([x._pv_kind for x in items_of(o.learners)] == kinds[::-1]
                                                                   and not {id(x) for x in items_of(o.learners)} & {id(x) for x in ls}))
    us.append(Unit(E, 'SubspatialVersionSpace.set_factorization_structure', d_modes))

    def d_margin():
        M = E.load(SUB)
        c = ctx()
        made = []

        class SM(Template):
            def __init__(self, **kw):
                Template.__init__(self)
                self._pv_kw = kw
                made.append(self)
        swap(M, 'SimpleMargin', SM)
        C, g = symreal('C'), symreal('gamma')
        p = PARTS[c.choose(4)]
        o = M.SubspatialSimpleMargin(p, C=C, kernel='linear', gamma=g)
        k = 1 if p is None else len(p)
        ls = items_of(o.learners)
        prove('one margin learner per subspace', z3.BoolVal(len(ls) == k and len({id(x) for x in ls}) == k and all(isinstance(x, SM) for x in ls)))
        prove('with the given parameters', z3.BoolVal(all(x._pv_kw == {'C': C, 'kernel': 'linear', 'gamma': g} for x in ls)))
    us.append(Unit(E, 'SubspatialSimpleMargin.__init__', d_margin))

    def d_marginrank():
        def mk(M):
            class SM(Template):
                def __init__(self, **kw):
                    Template.__init__(self)
            swap(M, 'SimpleMargin', SM)
            return M.SubspatialSimpleMargin()
        o, l, n, m, d, X, Y = fresh(mk)
        c = ctx()
        if c.choose(2):
            cell['kind'] = 'rank'
            A = l.ANS['rank']
            j, v = at(o, o.rank(X), m)
            w = total(lambda i: A(i, j), n)
            equate_sums(j)
            prove('the sum over the subspaces', v == w)
        else:
            cell['kind'] = 'predict'
            A = l.ANS['predict']
            j, v = at(o, o.predict(X), m)
            prove('positive exactly when every subspace is', v == one(forall(0, n.t, lambda i: A(i, j) == 1, lambda i: [A(i, j)])))
    us.append(Unit(E, 'SubspatialSimpleMargin', d_marginrank, {LOOP: LoopSpec(inv=any_inv)}))

    # ---------------------------------------------------------------- polytope learners
    class Pol(Opq):
        def __init__(self):
            self._pv_calls, self._pv_valid = [], symbool('valid').t

        @property
        def is_valid(self):
            return wrap(self._pv_valid)

        def clear(self):
            self._pv_calls.append(('clear',))
            self._pv_valid = z3.BoolVal(True)

        def update(self, X, y):
            self._pv_calls.append(('update', toarr(X).copy(), toarr(y).copy()))
            self._pv_valid = symbool('valid').t
            return wrap(self._pv_valid)

        def predict(self, X):
            X = toarr(X)
            a = vec('ans', X.shape[0])
            self._pv_calls.append(('predict', X.copy(), a.copy()))
            return a

        def __repr__(self):
            return 'pol'
    def d_pol():
        M = E.load(CAT)
        c = ctx()
        cls = ('PolytopeLearner', 'CategoricalActiveLearner', 'MultiSetActiveLearner')[c.choose(3)]
        p = Pol()
        if cls == 'PolytopeLearner':
            o = M.PolytopeLearner(p)
        else:
            nm = {'CategoricalActiveLearner': 'CategoricalPolytope', 'MultiSetActiveLearner': 'MultiSetPolytope'}[cls]
            made = []

            def mk(*a, **k):
                made.append((a, k))
                return p
            swap(M, nm, mk)
            o = getattr(M, cls)()
            prove('one polytope of its own kind', z3.BoolVal(len(made) == 1))
            if cls == 'MultiSetActiveLearner':           # its own probabilities: below
                restub1(o, 'predict_proba', p.predict)
        prove('nothing is done at first', z3.BoolVal(not p._pv_calls))
        n, m, d = size('n'), size('m'), size('d')
        X, y, Q = mat('X', n, d), vec('y', n), mat('Q', m, d)
        what = c.choose(3)
        if what == 0:
            r, err = raised(lambda: o.fit(X, y), RuntimeError)
            prove('fitting restarts from scratch with the given data', z3.BoolVal([q[0] for q in p._pv_calls] == ['clear', 'update']))
        elif what == 1:
            asked = []

            class Data(Opq):
                def last_training_set(self, *a, **k):
                    asked.append((a, k))
                    return X, y
            r, err = raised(lambda: o.fit_data(Data()), RuntimeError)
            prove('the last batch is asked for once', z3.BoolVal(len(asked) == 1))
            prove('only the last batch is added', z3.BoolVal([q[0] for q in p._pv_calls] == ['update']))
        if what < 2:
            u = p._pv_calls[-1]
            prove('the points and labels given', And(same_array(u[1], X), same_array(u[2], y)))
            prove('conflicting labels are an error', p._pv_valid == z3.BoolVal(err is None))
            return
        pr = toarr(o.predict_proba(Q))
        prove('the answers of the polytope', And(same_array(p._pv_calls[-1][1], Q), same_array(pr, p._pv_calls[-1][2])))
        r = toarr(o.predict(Q))
        a = p._pv_calls[-1][2].reader()
        rr = r.reader()
        prove('positive exactly above one half', And(dterm(r.shape[0]) == m.t, forall(0, m.t, lambda i: to_real(rr(i)) == one(a(i) > HALF))))
        k = toarr(o.rank(Q))
        a2, rk = p._pv_calls[-1][2].reader(), k.reader()
        prove('closer to one half is more informative', And(dterm(k.shape[0]) == m.t, forall(0, m.t, lambda i: rk(i) == If(a2(i) >= HALF, a2(i) - HALF, HALF - a2(i)))))
        prove('only questions were asked', z3.BoolVal({q[0] for q in p._pv_calls} == {'predict'}))
        o.clear()
        prove('a reset resets the polytope', z3.BoolVal([q[0] for q in p._pv_calls].count('clear') == 1))
    us.append(Unit(E, 'PolytopeLearner', d_pol))

    # ---------------------------------------------------------------- multi-set learner: the share of consistent assignments
    def multi():
        M = E.load(CAT)
        c = ctx()
        o = M.MultiSetActiveLearner()
        p, n = c.func('posf', Int, Bool), c.func('negf', Int, Bool)
        for nm, ty in (('_pos_indexes', SymSet), ('_neg_indexes', SymSet), ('_neg_point_cache', SymList)):
            if not isinstance(getattr(o.pol, nm, None), ty):
                c.unsupported('the representation of MultiSetPolytope has no %s' % nm)
        w, d = size('cached'), size('d', 1)
        F = c.func('cache', Int, Int, Bool)
        o.pol._pos_indexes, o.pol._neg_indexes = SymSet(lambda k: p(k)), SymSet(lambda k: n(k))
        l = SymList()
        l.items, l._n = None, w
        l.set_members(lambda t, k: F(t, k))
        o.pol._neg_point_cache = l
        # the invariant of the polytope (C11): features of the data, no feature on both sides
        rng = lambda k: And(k >= 0, k < d.t)
        assume(Forall([Int], lambda k: Implies(p(k), And(rng(k), Not(n(k)))), lambda k: [p(k)]),
               Forall([Int], lambda k: Implies(n(k), rng(k)), lambda k: [n(k)]),
               Forall([Int, Int], lambda t, k: Implies(And(t >= 0, t < w.t, F(t, k)), rng(k)), lambda t, k: [F(t, k)]))
        c.roots.append(('learner', o))
        return o, p, n, F, w, d

    def consistent(r, s, p, n, F, w, d):
        """sample s: zeros and ones, ones at positive features, zeros at negative ones, no pending negative point fully inside"""
        return [('only zeros and ones', forall(0, d.t, lambda k: Or(r(s, k) == 0, r(s, k) == 1), lambda k: [r(s, k)])),
                ('positive features are in', forall(0, d.t, lambda k: Implies(p(k), r(s, k) == 1), lambda k: [r(s, k)])),
                ('negative features are out', forall(0, d.t, lambda k: Implies(n(k), r(s, k) == 0), lambda k: [r(s, k)])),
                ('no pending negative point is inside', forall(0, w.t, lambda t: Implies(mark(t), Exists([Int], lambda k: And(F(t, k), r(s, k) == 0), lambda k: [F(t, k)])),
                                                               lambda t: [mark(t)]))]

    def d_sample():
        o, p, n, F, w, d = multi()
        cell.clear()
        cell.update(F=F)
        h = size('wanted')
        R = method(o, 'sample')(h, d)
        r = R.reader()
        prove('at most as many as wanted', And(dterm(R.shape[0]) >= 0, dterm(R.shape[0]) <= h.t, dterm(R.shape[1]) == d.t))
        s, t = ctx().const('s', Int), ctx().const('t', Int)
        assume(s >= 0, s < dterm(R.shape[0]), t >= 0, t < w.t)
        for nm, q in consistent(r, s, p, n, F, w, d)[:3]:
            prove(nm, q)
        assume(touch(r(s, z3.IntVal(0)) >= 0))
        prove('the pending negative points are outside', Implies(mark(t), Exists([Int], lambda k: And(F(t, k), r(s, k) == 0), lambda k: [F(t, k)])))
        cover('sampled')

    def sample_inv(L, t, g):
        F = cell['F']
        v, S = L.is_valid.reader(), L.S.reader()
        n_ = dterm(L.S.shape[0])
        return [('one flag per sample', dterm(L.is_valid.shape[0]) == n_),
                ('valid samples leave the treated points outside', Forall([Int, Int], lambda s, u: Implies(
                    And(s >= 0, s < n_, v(s), u >= 0, u < t, mark(u), mark(s, u)), Exists([Int], lambda k: And(F(u, k), S(s, k) == 0), lambda k: [F(u, k)])),
                    lambda s, u: [mark(s, u), mp(v(s), mark(u))]))]
    def rows_ok(r, hi, p, n, F, w, d):
        """every sample before hi is consistent"""
        rng = lambda s, k: And(s >= 0, s < hi, k >= 0, k < d.t)
        both = lambda q: Forall([Int, Int], lambda s, k: Implies(rng(s, k), q(s, k)), lambda s, k: [r(s, k)])
        return [('only zeros and ones', both(lambda s, k: Or(r(s, k) == 0, r(s, k) == 1))),
                ('positive features are in', both(lambda s, k: Implies(p(k), r(s, k) == 1))),
                ('negative features are out', both(lambda s, k: Implies(n(k), r(s, k) == 0)))]

    def proba_inv(L, t, g):
        p, n, F, w, d = cell['sym']
        S, i = L.S.reader(), t_(L.i)
        cell['S'] = S
        return [('samples so far', And(i >= 0, i <= dterm(L.S.shape[0]), dterm(L.S.shape[1]) == d.t))] + rows_ok(S, i, p, n, F, w, d)

    def d_multiproba():
        o, p, n, F, w, d = multi()
        cell.clear()
        cell['sym'] = (p, n, F, w, d)
        c = ctx()
        priv(o, 'MultiSetActiveLearner', 'n_samples')
        N = size('samples', 1)
        setpriv(o, 'MultiSetActiveLearner', 'n_samples', N)

        def sample(k, dim):
            prove('samples of the width of the data', t_(dim) == d.t)
            prove('a number of samples', t_(k) >= 0)
            q = size('got')
            assume(q.t <= t_(k))
            R = mat('R', q, d)
            for nm, f in rows_ok(R.reader(), q.t, p, n, F, w, d):
                assume(f)
            return R
        restub(o, 'sample', sample)
        m = size('m')
        X = mat('X', m, d)
        X0 = X.copy()
        x = X0.reader()
        assume(forall2(m.t, d.t, lambda i, k: Or(x(i, k) == 0, x(i, k) == 1), lambda i, k: [x(i, k)]))
        P = toarr(o.predict_proba(X))
        prove('one probability per point', And(z3.BoolVal(P.ndim == 1), dterm(P.shape[0]) == m.t))
        i, S = c.const('i', Int), c.const('s', Int)
        assume(i >= 0, i < m.t)
        v = to_real(P.at(i))
        prove('between zero and one', And(v >= 0, v <= 1))
        allp = forall(0, d.t, lambda k: Implies(x(i, k) == 1, p(k)), lambda k: [x(i, k)])
        link_sums()
        prove('one for known positive points', Implies(allp, v == 1))
        # a negative feature: the point differs from every sample
        k0 = c.const('k', Int)
        assume(k0 >= 0, k0 < d.t)
        Sr = cell['S']
        neg = And(n(k0), x(i, k0) == 1)
        xr = lambda k: to_real(x(i, k))
        V, G = rows_of(N, lambda s: total(lambda k: xr(k) * to_real(Sr(s, k)), d)), total(xr, d)

        def how(s):
            sum_rule('the difference', d, (1, xr), (-1, lambda k: xr(k) * to_real(Sr(s, k))), (-1, lambda k: xr(k) * (1 - to_real(Sr(s, k)))))
            assume(touch(Sr(s, k0) >= 0))
            derive('the difference is positive there', Implies(neg, xr(k0) * (1 - to_real(Sr(s, k0))) > 0),
                   Implies(neg, And(xr(k0) == 1, to_real(Sr(s, k0)) == 0)))
            a = c.const('k', Int)
            link_sums()
        every('no sample contains a point with a negative feature', 0, N.t, lambda s: Implies(neg, V(s) != G), how, lambda s: [V(s)])
        link_sums()
        prove('zero for known negative points', Implies(neg, v == 0))
        prove("the caller's data are unchanged", same_array(X, X0))
        cover('answered')
    us.append(Unit(E, 'MultiSetActiveLearner.predict_proba', d_multiproba, {'MultiSetActiveLearner.predict_proba:while#1': LoopSpec(inv=proba_inv)}))
    us.append(Unit(E, 'MultiSetActiveLearner.__sample', d_sample, {'MultiSetActiveLearner.__sample:for#1': LoopSpec(inv=sample_inv)}))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
