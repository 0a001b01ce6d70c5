"""Contracts of the changes of structure of factorized classifiers (C27)."""
from pyvc.builtins_ import pv_sorted

from .common import *
from .explore import raised
from .factor import Model, arg, calls, AL, LEARN, LIN
from .sampler import method, restub, restub1
from .small import HALF

FUNCTIONS = {'C27': ['LinearFactorizationLearner.copy/weights/bias/weight_matrix/num_subspaces/clear/feature_groups', 'prune_irrelevant_subspaces',
                     'compute_relevant_attributes', 'compute_factorization', 'compute_factorization_and_partial_labels', '__compute_partial_labels',
                     'LinearFactorizationLoss.__compute_factorization_matrix/get_weights_matrix', 'LinearFactorizationLearner.fit',
                     'FactorizedLinearClassifier.__init__/merge_partitions/partial_proba', 'FactorizationSelector.*', 'BruteForceSelector.*', 'GreedySelector.*']}
ASSUMPTIONS = {'C27': ['np.unique(axis=0) returns the distinct rows; list.sort is a permutation',
                       'in a finite family ordered by inclusion every member is contained in a maximal one (mathematical rule)',
                       'partial labels, merged partitions and partition selection: data, weights and losses symbolic, the number of groups bounded '
                       '(three subspaces, three groups, three features for the selectors)',
                       'fixed factorizations of a loss: three subspaces over three features (bounded), weights symbolic']}
PART_LEARN = 'aideme.active_learning.factorization.partitioning.learn'
PART_LIN = 'aideme.active_learning.factorization.partitioning.linear'


class Optim(Opq):
    pass


def index_of(term, f, pos=0):
    """the index t of a term f(t, ...)"""
    term = z3.simplify(term)
    if not (z3.is_app(term) and term.decl().eq(f)):
        ctx().unsupported('the rows of the result are not rows of the argument')
    return term.arg(pos)


def truth_(t):
    return t if z3.is_bool(t) else t != 0


def learner(E, bias, fitted=True, K=None, D=None, groups=None):
    M = E.load(LIN)
    c = ctx()
    pen = Opq()
    pen.groups = groups
    o = M.LinearFactorizationLearner(Optim(), pen, add_bias=bias)
    for nm in ('_weights', '_bias', 'add_bias'):
        if not hasattr(o, nm):
            c.unsupported('the representation of LinearFactorizationLearner has no %s' % nm)
    K, D = K or size('K'), D or size('D', 1)
    W = c.func('W', Int, Int, Real)
    B = c.func('B', Int, Real)
    if fitted:
        o._weights = Arr.make((K, D), 'real', lambda k, d: W(k, d))
        o._bias = Arr.make((K,), 'real', lambda k: B(k)) if bias else None
    return M, o, K, D, W, B


def is_(a, f, *ns):
    """array a has shape ns and contents f"""
    r = a.reader()
    t = [dterm(x) == t_(n) for x, n in zip(a.shape, ns)]
    if len(ns) == 1:
        return And(t + [forall(0, t_(ns[0]), lambda i: to_real(r(i)) == to_real(f(i)))])
    return And(t + [forall2(t_(ns[0]), t_(ns[1]), lambda i, j: to_real(r(i, j)) == to_real(f(i, j)))])


def units_C27(E):
    us = []

    def d_access():
        c = ctx()
        bias, fitted = c.choose(2) == 1, c.choose(2) == 1
        M, o, K, D, W, B = learner(E, bias, fitted, groups=('groups',))
        prove('the groups of the penalty', z3.BoolVal(o.feature_groups == ('groups',)))
        w, b, m, n = o.weights, o.bias, o.weight_matrix, o.num_subspaces
        if not fitted:
            prove('nothing before fitting', z3.BoolVal(w is None and b is None and m is None))
            prove('no subspace before fitting', t_(n) == 0)
            return
        prove('the weights', is_(w, W, K, D))
        prove('the bias, if there is any', is_(b, B, K) if bias else z3.BoolVal(b is None) if b is None else is_(b, lambda k: z3.RealVal(0), K))
        prove('one row per subspace', t_(n) == K.t)
        wd = D.t + (1 if bias else 0)
        prove('weights and bias side by side', is_(m, lambda k, d: If(d < D.t, W(k, d), B(k)), K, wrap(z3.simplify(wd))))
        for a in (w, b, m):
            if a is not None:
                a += 1
        prove('changing what was handed out changes nothing', And(is_(o._weights, W, K, D), is_(o._bias, B, K) if bias else z3.BoolVal(True)))
        q = o.copy()
        prove('a copy has the same options', z3.BoolVal(q.optimizer is o.optimizer and q.penalty_term is o.penalty_term and q.add_bias == o.add_bias))
        prove('a copy has the same parameters', And(is_(q._weights, W, K, D), is_(q._bias, B, K) if bias else z3.BoolVal(q._bias is None)))
        q._weights += 1
        if bias:
            q._bias += 1
        prove('a copy shares no parameters', And(is_(o._weights, W, K, D), is_(o._bias, B, K) if bias else z3.BoolVal(True)))
        q.clear()
        prove('resetting a copy resets only the copy', And(z3.BoolVal(q._weights is None and q._bias is None and q.weight_matrix is None), is_(o._weights, W, K, D)))
    us.append(Unit(E, 'LinearFactorizationLearner: parameters and copies', d_access))

    def d_same():
        """answers depend on the parameters only"""
        c = ctx()
        bias = c.choose(2) == 1
        M, o, K, D, W, B = learner(E, bias)
        q = o.copy()
        X = mat('X', size('n'), D)
        a, b = toarr(o.partial_proba(X)), toarr(q.partial_proba(X))
        from pyvc.reduce import link_sums
        link_sums()
        prove('a copy gives the same probabilities', same_array(a, b))
    us.append(Unit(E, 'LinearFactorizationLearner.copy: predictions', d_same))

    def d_prune():
        c = ctx()
        L = E.load(LEARN)
        bias = c.choose(2) == 1
        M, o, K, D, W, B = learner(E, bias)
        n = size('n', 1)
        X = mat('X', n, D)
        X0 = X.copy()
        P = c.func('P', Int, Int, Real)
        asked = []

        def pp(Q):
            asked.append(toarr(Q))
            return Arr.make((n, K), 'real', lambda i, k: P(i, k))
        restub1(o, 'partial_proba', pp)
        thr, tol = symreal('thr'), symreal('tol')
        r, err = raised(lambda: L.prune_irrelevant_subspaces(X, o, threshold=thr, tol=tol), ValueError)
        ok = And(thr.t >= 0, thr.t <= 1, tol.t > 0)
        prove('exactly options out of range are rejected', z3.BoolVal(err is None) == ok)
        if err is not None:
            return
        prove('probabilities of the given points', And([same_array(q, X0) for q in asked]))
        prove('the original keeps its parameters', And(is_(o._weights, W, K, D), is_(o._bias, B, K) if bias else z3.BoolVal(True)))
        prove('another learner', z3.BoolVal(r is not o and r.add_bias == o.add_bias and r.penalty_term is o.penalty_term))
        w = toarr(r._weights)
        m, rw = dterm(w.shape[0]), w.reader()
        prove('the same columns', And(m <= K.t, dterm(w.shape[1]) == D.t))
        j, j2, d = c.const('j', Int), c.const('j2', Int), c.const('d', Int)
        assume(j >= 0, j < j2, j2 < m, d >= 0, d < D.t)
        s = lambda q: index_of(rw(q, d), W)
        prove('kept rows are rows of the original, in their order', And(s(j) >= 0, s(j) < s(j2), s(j2) < K.t))
        if bias:
            b = toarr(r._bias)
            prove('each with its own bias', And(dterm(b.shape[0]) == m, b.reader()(j) == B(s(j))))
        cover('pruned')

    def relevant(c, P, W, n, D, thr, tol):
        """the definition: some point below the threshold and weights that are not zero (squared norm)"""
        from .kernels import total
        low = lambda k: Exists([Int], lambda i: And(i >= 0, i < n.t, P(i, k) < thr.t))
        return low

    def d_prune2():
        """which rows are kept"""
        c = ctx()
        L = E.load(LEARN)
        from pyvc import npstub as N
        M, o, K, D, W, B = learner(E, c.choose(2) == 1)
        n = size('n', 1)
        X = mat('X', n, D)
        P = c.func('P', Int, Int, Real)
        restub1(o, 'partial_proba', lambda Q: Arr.make((n, K), 'real', lambda i, k: P(i, k)))
        thr, tol = symreal('thr'), symreal('tol')
        assume(thr.t >= 0, thr.t <= 1, tol.t > 0)
        nrm = toarr(N.norm(o._weights, axis=1)).reader()
        r = L.prune_irrelevant_subspaces(X, o, threshold=thr, tol=tol)
        w = toarr(r._weights)
        m, rw = dterm(w.shape[0]), w.reader()
        k, j, i0 = c.const('k', Int), c.const('j', Int), c.const('i', Int)
        d = z3.IntVal(0)
        assume(j >= 0, j < m)
        s = index_of(rw(j, d), W)
        from pyvc.reduce import link_sums
        link_sums()
        prove('kept subspaces have weights that are not zero', nrm(s) > tol.t)
        prove('kept subspaces matter for some point', Exists([Int], lambda i: And(i >= 0, i < n.t, P(i, s) < thr.t), lambda i: [P(i, s)]))
        assume(k >= 0, k < K.t, i0 >= 0, i0 < n.t, touch(P(i0, k) >= 0), touch(nrm(k) >= 0))
        link_sums()
        sel = (lambda q: z3.substitute(s, (j, q)))
        prove('every subspace that matters is kept', Implies(And(nrm(k) > tol.t, P(i0, k) < thr.t), Exists([Int], lambda q: And(q >= 0, q < m, sel(q) == k), lambda q: [sel(q)])))
    us.append(Unit(E, 'prune_irrelevant_subspaces', d_prune))
    us.append(Unit(E, 'prune_irrelevant_subspaces: what is kept', d_prune2))

    def d_relevant():
        c = ctx()
        L = E.load(LEARN)
        g = c.choose(3)
        groups = (None, [[0], [1, 2]], [[2, 0, 1]])[g]
        D = size('D', 1) if groups is None else wrap(3)
        M, o, K, D, W, B = learner(E, True, D=D if groups is None else 3, groups=groups)
        o0 = o._weights.copy()
        from pyvc import npstub as N
        R = toarr(L.compute_relevant_attributes(o))
        rr = R.reader()
        prove('one flag per weight', And(dterm(R.shape[0]) == K.t, dterm(R.shape[1]) == t_(D), z3.BoolVal(R.kind == 'bool')))
        prove('the weights are unchanged', same_array(o._weights, o0))
        k, d = c.const('k', Int), c.const('d', Int)
        assume(k >= 0, k < K.t, d >= 0, d < t_(D))
        ab = lambda t: If(t >= 0, t, -t)
        if groups is None:
            from .kernels import total
            from pyvc.reduce import link_sums
            S = total(lambda x: ab(W(k, x)), D)
            assume(touch(rr(k, d)), touch(S >= 0))
            link_sums()
            v = ab(W(k, d))
            assume(S > 0)
            n_ = z3.ToReal(t_(D))
            link_sums()
            prove('relevant exactly above the average share', rr(k, d) == (v / S > 1 / n_))
            derive('in other words', (v / S > 1 / n_) == (v * n_ > S), S > 0, n_ >= 1)
        else:
            S = ab(W(k, 0)) + ab(W(k, 1)) + ab(W(k, 2))
            assume(S > 0)
            of = [sum((ab(W(k, x)) for x in gr[1:]), ab(W(k, gr[0]))) for gr in groups]
            for gr, v in zip(groups, of):
                for x in gr:
                    prove('a group is relevant above the average share', rr(k, z3.IntVal(x)) == (v / S > z3.Q(1, len(groups))))
    us.append(Unit(E, 'compute_relevant_attributes', d_relevant))

    # ---------------------------------------------------------------- the learned structure
    cell = {}

    class Row(SymList):
        """the features of the i-th distinct subspace"""

        def __init__(self, i):
            SymList.__init__(self)
            self.items, self._n = None, cell['len']
            self._fn = lambda x: wrap(cell['at'](i, as_term(x)))
            self._pv_i = i

        def pv_subst(self, pairs):
            return Row(z3.simplify(z3.substitute(self._pv_i, *pairs)))

        def copy(self):
            return self

        def pv_toset(self):
            i = self._pv_i
            s = SymSet(lambda x: cell['F'](i, x))
            s.__class__ = RowSet
            s._pv_i = i
            return s

    class RowSet(SymSet):
        def issubset(self, o):
            if isinstance(o, (Row, RowSet)):
                return wrap(cell['sub'](self._pv_i, o._pv_i))
            return SymSet.issubset(self, o)
        __le__ = issubset

        def copy(self):
            return self

    class RowList(SymList):
        def __init__(self, n=0, idx=None):
            SymList.__init__(self)
            self.items, self._n, self.idx = None, n, idx or (lambda j: z3.IntVal(0))
            self._fn = lambda j: Row(self.idx(as_term(j)))

        def append(self, v):
            if not isinstance(v, Row):
                ctx().unsupported('something else than a group is appended')
            n0, old = dterm(self._n), self.idx
            f = ctx().func('idx', Int, Int)
            assume(f(n0) == v._pv_i, Forall([Int], lambda j: Implies(j != n0, f(j) == old(j)), lambda j: [f(j), old(j)]))
            self.idx, self._n = (lambda j: f(j)), dim_wrap(z3.simplify(n0 + 1))
            self.touch()

        def havoc_as(self, kind):
            c = ctx()
            f, n = c.func('idx', Int, Int), c.const('len', Int)
            assume(n >= 0)
            self.idx, self._n = (lambda j: f(j)), wrap(n)
            self.touch()

        def pv_sorted(self):
            c = ctx()
            p, q = c.func('perm', Int, Int), c.func('mrep', Int, Int)
            n, old = dterm(self._n), self.idx
            rng = lambda i: And(i >= 0, i < n)
            assume(Forall([Int], lambda i: Implies(rng(i), And(rng(p(i)), q(p(i)) == i)), lambda i: [p(i)]),
                   Forall([Int], lambda i: Implies(rng(i), And(rng(q(i)), p(q(i)) == i)), lambda i: [q(i), old(i)]))
            cell['q'] = q
            return RowList(self._n, lambda j: old(p(j)))

    def d_struct():
        c = ctx()
        L = E.load(LEARN)
        n, D, u = size('rows'), size('D', 1), size('distinct')
        cell.clear()
        F, R = c.func('F', Int, Int, Bool), c.func('R', Int, Int, Bool)
        sub, w = c.func('sub', Int, Int, Bool), c.func('wit', Int, Int, Int)
        cell.update(F=F, sub=sub, u=u.t, len=size('len'), at=c.func('at', Int, Int, Int))
        inu = lambda i: And(i >= 0, i < u.t)
        # sub is inclusion of the rows
        assume(Forall([Int, Int, Int], lambda i, j, x: Implies(And(sub(i, j), F(i, x)), F(j, x)), lambda i, j, x: [mp(sub(i, j), F(i, x))]),
               Forall([Int, Int], lambda i, j: Implies(Not(sub(i, j)), And(F(i, w(i, j)), Not(F(j, w(i, j))))), lambda i, j: [sub(i, j)]))
        # np.unique(axis=0): the distinct rows
        dist, src, dst = c.func('differ', Int, Int, Int), c.func('src', Int, Int), c.func('dst', Int, Int)
        assume(Forall([Int, Int], lambda i, j: Implies(And(inu(i), inu(j), i != j), F(i, dist(i, j)) != F(j, dist(i, j))), lambda i, j: [sub(i, j)]))
        given = mat('rel', n, D, 'bool')
        asked = []

        class Uniq(Opq):
            pass

        def unique(a, axis=None, **k):
            asked.append((a, axis, k))
            r = SymList()
            r.items, r._n, r._fn = None, u, (lambda i: Row(as_term(i)))
            return r

        def where(s, *a):
            if not isinstance(s, Row) or a:
                c.unsupported('np.where on something else than a row')
            return (s,)
        np_ = type('np', (), {})()
        for k in dir(L.np):
            try:
                setattr(np_, k, getattr(L.np, k))
            except Exception:
                pass
        np_.unique, np_.where = unique, where
        swap(L, 'np', np_)
        res = L.compute_factorization(given)
        prove('the distinct rows of the relevant attributes', z3.BoolVal(len(asked) == 1 and asked[0][0] is given and asked[0][1] == 0 and not asked[0][2]))
        if not isinstance(res, RowList):
            c.unsupported('the result is another kind of list')
        m, idx = dterm(res._n), res.idx
        top = lambda i: Forall([Int], lambda j: Implies(And(inu(j), j != i), Not(sub(i, j))), lambda j: [sub(i, j)])
        j, k = c.const('j', Int), c.const('k', Int)
        assume(j >= 0, j < m, k >= 0, k < m, j != k)
        prove('groups are subspaces', And(inu(idx(j)), inu(idx(k))))
        prove('groups are distinct', idx(j) != idx(k))
        prove('no group contains another', Not(sub(idx(j), idx(k))))
        i = c.const('i', Int)
        assume(inu(i), mark(i))
        prove('every maximal subspace is a group', Implies(top(i), Exists([Int], lambda q: And(q >= 0, q < m, idx(q) == i), lambda q: [idx(q)])))
        # rule: in a finite family ordered by inclusion (distinct members) every member lies below a maximal one
        t = c.const('top', Int)
        assume(inu(t), sub(i, t), top(t), mark(t))
        prove('every subspace is contained in a group', Exists([Int], lambda q: And(q >= 0, q < m, sub(i, idx(q))), lambda q: [idx(q)]))
        cover('structured')

    def struct_inv(L, t, g):
        sub, u = cell['sub'], cell['u']
        l = L.factorization
        if not isinstance(l, RowList):
            raise TypeError('list')
        n, idx = dterm(l._n), l.idx
        c = ctx()
        inu = lambda i: And(i >= 0, i < u)
        top = lambda i: Forall([Int], lambda j: Implies(And(inu(j), j != i), Not(sub(i, j))), lambda j: [sub(i, j)])
        return [('as many as were treated at most', And(n >= 0, n <= t)),
                ('treated, maximal subspaces, in their order', Forall([Int, Int], lambda a, b: Implies(And(a >= 0, a < b, b < n), idx(a) < idx(b)), lambda a, b: [mp(idx(a), idx(b))])),
                ('of the treated ones', forall(0, n, lambda j: And(idx(j) >= 0, idx(j) < t), lambda j: [idx(j)])),
                ('maximal', Forall([Int, Int], lambda j, k: Implies(And(j >= 0, j < n, inu(k), k != idx(j)), Not(sub(idx(j), k))), lambda j, k: [sub(idx(j), k)])),
                ('all maximal ones', Forall([Int], lambda i: Implies(And(i >= 0, i < t, mark(i), top(i)), Exists([Int], lambda q: And(q >= 0, q < n, idx(q) == i), lambda q: [idx(q)])), lambda i: [mark(i)]))]
    us.append(Unit(E, 'compute_factorization', d_struct, {'compute_factorization:for#1': LoopSpec(inv=struct_inv, become={'factorization': RowList})}))

    # ---------------------------------------------------------------- partial labels
    SHAPES = [([[0, 1], [1], [2]], [[0, 1], [2]]),
              ([[1], [0], [0, 1]], [[0, 1]]),
              ([[2, 1], [1], [0, 1]], [[0, 1], [1, 2]]),
              ([[1], [2, 0], [1]], [[0, 1], [0, 2], [1, 2]])]

    def d_labels():
        c = ctx()
        L = E.load(LEARN)
        nm = '__compute_partial_labels'
        if nm not in vars(L):
            c.unsupported('no function %s' % nm)
        subs, fact = SHAPES[c.choose(len(SHAPES))]
        n = size('n')
        p = mat('p', n, len(subs))
        rp = p.reader()
        r = c.const('r', Int)
        assume(r >= 0, r < n.t)
        assume(Forall([Int, Int], lambda i, j: And(rp(i, j) >= 0, rp(i, j) <= 1), lambda i, j: [rp(i, j)]))
        p0 = p.copy()
        lp, lf = SymList([SymList(list(x)) for x in subs]), SymList([SymList(list(x)) for x in fact])
        Y = toarr(vars(L)[nm](lp, lf, p))
        from pyvc import funcs
        ry = Y.reader()
        prove('one label per point and group', And(dterm(Y.shape[0]) == n.t, dterm(Y.shape[1]) == len(fact)))
        prove('the probabilities are unchanged', same_array(p, p0))
        for i, g in enumerate(fact):
            v = z3.RealVal(1)
            for j, q in enumerate(subs):
                own = [h for h in fact if set(q) <= set(h)]
                if g in own:
                    v = v * (rp(r, z3.IntVal(j)) if len(own) == 1 else funcs.power(rp(r, z3.IntVal(j)), z3.Q(1, len(own))))
            v = z3.simplify(v)
            prove('label of a group: do its subspaces (shared ones in equal parts) hold together',
                  to_real(ry(r, z3.IntVal(i))) == If(v > z3.Q(1, 2), z3.RealVal(1), z3.RealVal(0)))
    us.append(Unit(E, '__compute_partial_labels', d_labels))

    def d_phases():
        """compute_factorization_and_partial_labels, over the contracts of the functions above"""
        c = ctx()
        L = E.load(LEARN)
        nm = '__compute_partial_labels'
        if nm not in vars(L):
            c.unsupported('no function %s' % nm)
        log, made = [], []

        def maker(kind):
            def mk(*a, **k):
                o = Opq()
                made.append((kind, a, k, o))
                return o
            return mk
        n, d = size('n'), size('d', 1)
        X, y, D = mat('X', n, d), vec('y', n), Opq()

        class FLM(Opq):
            def __init__(self, name, opt=None, pen=None):
                self.name, self._pv_opt, self._pv_pen = name, opt, pen
                self.weight_matrix, self.num_subspaces = ('matrix', name), ('number', name)

            def fit(self, *a, **k):
                log.append((self.name, 'fit', a, k))

            def partial_proba(self, Q):
                log.append((self.name, 'partial_proba', (Q,), {}))
                return ('probabilities', self.name)
        def new(optimizer=None, penalty_term=None, add_bias=True):
            o = FLM('new%d' % len([m for m in made if m[0] == 'flm']), optimizer, penalty_term)
            prove('with a bias, as the model', z3.BoolVal(add_bias is True))
            made.append(('flm', (), {}, o))
            return o
        for k in ('FISTA', 'Adam', 'SparseGroupLassoPenalty'):
            swap(L, k, maker(k))
        swap(L, 'LinearFactorizationLearner', new)
        pruned = FLM('pruned')
        K = size('K')

        ln_, at_ = size('len'), c.func('at', Int, Int, Int)

        class Flag(SymList):
            def __init__(self, i):
                SymList.__init__(self)
                self.items, self._n = None, ln_
                self._fn = lambda x: wrap(at_(i, as_term(x)))
                self._pv_i = i

            def pv_subst(self, pairs):
                return Flag(z3.simplify(z3.substitute(self._pv_i, *pairs)))

            def copy(self):
                return self
        rel = SymList.of(K, lambda i: Flag(as_term(i)))

        def prune(data, model, *a, **k):
            log.append(('prune', '', (data, model) + a, k))
            return pruned

        def relev(model):
            log.append(('relevant', '', (model,), {}))
            return rel
        F = Opq()

        def structure(r):
            log.append(('structure', '', (r,), {}))
            return F

        def labels(s, f, p):
            log.append(('labels', '', (s, f, p), {}))
            return ('labels',)
        swap(L, 'prune_irrelevant_subspaces', prune)
        swap(L, 'compute_relevant_attributes', relev)
        swap(L, 'compute_factorization', structure)
        swap(L, nm, labels)
        np_ = type('np', (), {})()
        np_.where = lambda s: (s,)
        swap(L, 'np', np_)
        ds = Opq()
        ds.training_set = lambda: (X, y)
        ds.data = D
        model = FLM('model')
        ln = lambda w, k='fit': [(a, kw) for q, kk, a, kw in log if q == w and (kk == k or k is None)]
        opts = dict(fista_step_size=symreal('step'), max_iter=size('it', 1), l1_penalty=symreal('l1'), l2_sqrt_penalty=symreal('l2'))
        r = L.compute_factorization_and_partial_labels(ds, model, **opts)
        ok = lambda t: z3.BoolVal(bool(t))
        flms = [o for k, _, _, o in made if k == 'flm']
        prove('two models are trained', ok(len(flms) == 2))
        m1, m2 = flms
        opt = {id(o): (k, a, kw) for k, a, kw, o in made if k != 'flm'}
        k1, k2, kp = opt.get(id(m1._pv_opt)), opt.get(id(m2._pv_opt)), opt.get(id(m1._pv_pen))
        prove('a proximal optimizer with a sparse group penalty, then a plain one', ok(k1 and k2 and kp and (k1[0], k2[0], kp[0]) == ('FISTA', 'Adam', 'SparseGroupLassoPenalty') and m2._pv_pen is None))
        for k, a, kw in (k1, k2):
            prove('the iteration budget and whole batches', ok(kw.get('max_iter') is opts['max_iter'] and kw.get('batch_size', 0) is None))
        prove('the step of the proximal optimizer', ok((k1[2].get('step_size') if not k1[1] else k1[1][0]) is opts['fista_step_size']))
        prove('the penalties', ok(arg(kp[1], kp[2], 0, 'l1_penalty') is opts['l1_penalty'] and arg(kp[1], kp[2], 1, 'l2_sqrt_penalty') is opts['l2_sqrt_penalty']))
        f1, f2 = ln(m1.name), ln(m2.name)
        prove('each trained once', ok(len(f1) == 1 and len(f2) == 1))
        a, kw = f1[0]
        prove('refines the current model on the labeled data', ok(a[0] is X and a[1] is y and arg(a, kw, 2, 'factorization') == ('number', 'model') and arg(a, kw, 4, 'x0') == ('matrix', 'model') and arg(a, kw, 3, 'retries', 1) == 1))
        pr = ln('prune', None)
        prove('pruned over the whole dataset, after training', ok(len(pr) == 1 and arg(pr[0][0], pr[0][1], 0, 'X') is D and arg(pr[0][0], pr[0][1], 1, 'learner') is m1))
        rl = ln('relevant', None)
        prove('relevant attributes of the pruned model', ok(rl and all(q[0][0] is pruned for q in rl)))
        a, kw = f2[0]
        prove('the sparse model starts from the pruned one', ok(a[0] is X and a[1] is y and arg(a, kw, 4, 'x0') == ('matrix', 'pruned') and arg(a, kw, 3, 'retries', 1) == 1))
        subs = arg(a, kw, 2, 'factorization')
        st, lb = ln('structure', None), ln('labels', None)
        prove('one structure, one set of labels', ok(len(st) == 1 and len(lb) == 1 and st[0][0][0] is rel))
        s_, f_, p_ = lb[0][0]
        prove('labels of the sparse model for its subspaces and the structure', ok(s_ is subs and f_ is F and p_ == ('probabilities', m2.name) and ln(m2.name, 'partial_proba')[0][0][0] is X))
        prove('both are returned', ok(tuple(r) == (F, ('labels',))))
        prove('the sparse model was trained before', ok([q[:2] for q in log].index((m2.name, 'fit')) < [q[:2] for q in log].index((m2.name, 'partial_proba')) and [q[:2] for q in log].index((m1.name, 'fit')) < [q[0] for q in log].index('prune')))
        nsub, el = as_seq(subs)
        i = c.const('i', Int)
        assume(i >= 0, i < K.t)
        e = el(i)
        prove('the subspaces are the relevant attributes, row by row', And(dterm(nsub) == K.t, e._pv_i == i) if isinstance(e, Flag) else z3.BoolVal(False))
    us.append(Unit(E, 'compute_factorization_and_partial_labels', d_phases))

    # ---------------------------------------------------------------- fixed structures
    FACTS = [[[0, 2], [1], [0, 1]], [[2], [1, 0]], [[0]], [[1, 0, 2], [2, 1]]]

    def places(f, bias):
        """positions of the mask in row order"""
        return [(k, d) for k, g in enumerate(f) for d in sorted(g) + ([3] if bias else [])]

    def d_mask():
        c = ctx()
        M = E.load(LIN)
        f, bias = FACTS[c.choose(len(FACTS))], c.choose(2) == 1
        dim = 3 + bias
        X, y = mat('X', size('n', 1), 3), None
        y = vec('y', X.shape[0])
        o = M.LinearFactorizationLoss(X, y, add_bias=bias, penalty_term=None, factorization=[list(g) for g in f])
        prove('the number of parameters of a subspace', z3.BoolVal(o.dim == dim))
        B = toarr(o.factorization)
        rb = B.reader()
        pl = places(f, bias)
        prove('one row per subspace', z3.BoolVal(tuple(B.shape) == (len(f), dim)))
        prove('the mask: its features and the bias', And([truth_(rb(z3.IntVal(k), z3.IntVal(d))) == z3.BoolVal((k, d) in pl) for k in range(len(f)) for d in range(dim)]))
        w = vec('w', len(pl))
        rw = w.reader()
        w0 = w.copy()
        b, W = o.get_weights_matrix(w)
        W = toarr(W)
        r = W.reader()
        prove('shape', And(dterm(W.shape[0]) == len(f), dterm(W.shape[1]) == 3))
        val = {q: rw(z3.IntVal(i)) for i, q in enumerate(pl)}
        for k in range(len(f)):
            for d in range(3):
                prove('every weight at its feature, zero elsewhere', to_real(r(z3.IntVal(k), z3.IntVal(d))) == val.get((k, d), z3.RealVal(0)))
            if bias:
                prove('the bias', to_real(toarr(b).reader()(z3.IntVal(k))) == val[k, 3])
        prove('no bias', z3.BoolVal(bias or b is None))
        prove('the parameters are unchanged', same_array(w, w0))
    us.append(Unit(E, 'LinearFactorizationLoss: fixed structure', d_mask))

    def d_full():
        """no fixed structure: weights and bias are the columns of the parameter matrix"""
        c = ctx()
        M = E.load(LIN)
        bias = c.choose(2) == 1
        n, D, K = size('n', 1), size('D', 1), size('K', 1)
        X = mat('X', n, D)
        y = vec('y', n)
        o = M.LinearFactorizationLoss(X, y, add_bias=bias)
        prove('no mask', z3.BoolVal(o.factorization is None))
        w = mat('w', K, wrap(z3.simplify(D.t + (1 if bias else 0))))
        rw = w.reader()
        b, W = o.get_weights_matrix(w)
        prove('the weights', is_(toarr(W), lambda k, d: rw(k, d), K, D))
        prove('the bias', is_(toarr(b), lambda k: rw(k, D.t), K) if bias else z3.BoolVal(b is None))
    us.append(Unit(E, 'LinearFactorizationLoss: free structure', d_full))

    def d_fit():
        """LinearFactorizationLearner.fit: starting points, the best result, parameters from it"""
        c = ctx()
        M = E.load(LIN)
        f = [[0, 2], [1]] if c.choose(2) == 1 else None
        bias, retries, given = c.choose(2) == 1, 1 + c.choose(2), c.choose(2) == 1
        dim = 3 + bias
        K = 2
        runs, losses = [], []

        class Opt(Opq):
            def minimize(self, x0, fun, jac):
                r = Opq()
                r.x = vec('x', 2 * dim) if f is None else vec('x', len(places(f, bias)))
                r.fun = symreal('fun')
                runs.append((toarr(x0), fun, jac, r))
                return r
        opt = Opt()
        bs = c.choose(2)
        if bs:
            opt.batch_size = size('batch', 1)
        o = M.LinearFactorizationLearner(opt, None, add_bias=bias)
        X = mat('X', size('n', 1), 3)
        y = vec('y', X.shape[0])
        real, seen = M.LinearFactorizationLoss, []

        def mk(*a, **k):
            l = real(*a, **k)
            seen.append((a, k, l, []))
            restub1(l, 'set_batch_size', lambda b: seen[-1][3].append(b))
            return l
        swap(M, 'LinearFactorizationLoss', mk)
        start = Arr.fresh('start', (retries, K, dim), 'real')
        kw = dict(retries=retries)
        if given:
            kw['x0'] = start.copy()
        res = o.fit(X, y, K if f is None else [list(g) for g in f], **kw)
        ok = lambda t: z3.BoolVal(bool(t))
        prove('one loss', ok(len(seen) == 1))
        a, k, l, bsz = seen[0]
        prove('of the given data and structure', ok(l.X is X and l.y is y and l.add_bias == bias and l.penalty_term is None and (l.factorization is None) == (f is None)))
        prove('with the batches of the optimizer', ok(bsz == ([] if not bs else [opt.batch_size]) or (bs and len(bsz) == 1 and bsz[0] is opt.batch_size)))
        prove('as many runs as tries', ok(len(runs) == retries))
        pl = places(f, bias) if f is not None else None
        for q, (x0, fun, jac, r) in enumerate(runs):
            prove('minimises the loss with its gradient', ok(getattr(fun, '__func__', fun) is getattr(l.compute_loss, '__func__', 0) and getattr(jac, '__func__', jac) is getattr(l.compute_grad, '__func__', 0)))
            if not given:
                continue
            rs, rx = start.reader(), x0.reader()
            if pl is None:
                prove('the given starting point', And(ok(tuple(x0.shape) == (K, dim)), And([rx(z3.IntVal(i), z3.IntVal(j)) == rs(z3.IntVal(q), z3.IntVal(i), z3.IntVal(j)) for i in range(K) for j in range(dim)])))
            else:
                prove('the given starting point at the places of the structure', And(ok(tuple(x0.shape) == (len(pl),)), And([rx(z3.IntVal(t)) == rs(z3.IntVal(q), z3.IntVal(i), z3.IntVal(j)) for t, (i, j) in enumerate(pl)])))
        best = [r for _, _, _, r in runs if r is res]
        prove('the result of one of the runs', ok(len(best) == 1))
        prove('the best result is kept', And([res.fun.t <= r.fun.t for _, _, _, r in runs]))
        rx = res.x.reader()
        w = toarr(o._weights).reader()
        at = (lambda i, j: rx(z3.IntVal(i * dim + j))) if pl is None else (lambda i, j: rx(z3.IntVal(pl.index((i, j)))) if (i, j) in pl else z3.RealVal(0))
        prove('its weights', And(ok(tuple(o._weights.shape) == (K, 3)), And([to_real(w(z3.IntVal(i), z3.IntVal(j))) == at(i, j) for i in range(K) for j in range(3)])))
        if bias:
            b = toarr(o._bias).reader()
            prove('its bias', And([to_real(b(z3.IntVal(i))) == at(i, 3) for i in range(K)]))
        else:
            prove('no bias', ok(o._bias is None))
    us.append(Unit(E, 'LinearFactorizationLearner.fit', d_fit))

    # ---------------------------------------------------------------- partitions of the features
    PARTS = [[[0], [1]], [[1, 0], [2]], [[2], [0, 1], [3]], [[0], [3], [2, 1]]]

    def weights_of(clf, w):
        """feature -> weight, part -> bias, by the layout 'bias, then the weights of the part' """
        r = toarr(w).reader()
        pos, fw, bw = 0, {}, []
        for p in clf.partition:
            bw.append(z3.simplify(to_real(r(z3.IntVal(pos)))))
            for k, f in enumerate(p):
                fw.setdefault(f, []).append(z3.simplify(to_real(r(z3.IntVal(pos + 1 + k)))))
            pos += 1 + len(p)
        return fw, bw, pos

    def d_clf():
        c = ctx()
        M = E.load(PART_LIN)
        parts = PARTS[c.choose(len(PARTS))]
        N = sum(map(len, parts))
        given = c.choose(2) == 1
        n = c.const('n', Int)
        assume(n >= 0)
        w = vec('w', wrap(n)) if given else None
        o, err = raised(lambda: M.FactorizedLinearClassifier([list(p) for p in parts], w), ValueError)
        dim = len(parts) + N
        if not given:
            prove('no weights: zeros', z3.BoolVal(err is None and tuple(o.weights.shape) == (dim,)))
            r = toarr(o.weights).reader()
            prove('all zero', And([to_real(r(z3.IntVal(i))) == 0 for i in range(dim)]))
            return
        prove('exactly weights of the right length are accepted', z3.BoolVal(err is None) == (n == dim))
        if err is not None:
            return
        prove('the number of parameters', z3.BoolVal(o.dim == dim))
        X = mat('X', size('m'), wrap(c.const('d', Int)))
        fw, bw, _ = weights_of(o, w)
        # subspace probabilities: features of the part with their weights and bias
        from pyvc import funcs
        i = c.const('i', Int)
        assume(i >= 0, i < dterm(X.shape[0]))
        for k, p in enumerate(parts):
            Xp = mat('Xp', X.shape[0], len(p))
            rX = Xp.reader()
            g = toarr(o.partial_proba(Xp, k)).reader()
            mg = bw[k]
            for q, f in enumerate(p):
                mg = mg + rX(i, z3.IntVal(q)) * fw[f][0]
            prove('probability of a part', g(i) == funcs.expit(mg))
    us.append(Unit(E, 'FactorizedLinearClassifier: parts and weights', d_clf))

    def d_merge():
        c = ctx()
        M = E.load(PART_LIN)
        parts = PARTS[c.choose(len(PARTS))]
        N = sum(map(len, parts))
        dim = len(parts) + N
        w = vec('w', dim)
        o = M.FactorizedLinearClassifier([list(p) for p in parts], w)
        w0 = w.copy()
        i, j, keep = c.choose(len(parts)), c.choose(len(parts)), c.choose(2) == 1
        q = o.merge_partitions(i, j, keep)
        ok = lambda t: z3.BoolVal(bool(t))
        prove('the classifier is unchanged', And(ok(o.partition == parts), same_array(o.weights, w0)))
        if i == j:
            prove('nothing to merge', ok(q is o))
            return
        got = [sorted(p) for p in q.partition]
        exp = [sorted(p) for k, p in enumerate(parts) if k not in (i, j)] + [sorted(parts[i] + parts[j])]
        prove('exactly the two parts are joined, every feature once', ok(sorted(got) == sorted(exp)))
        fo, bo, _ = weights_of(o, o.weights)
        fq, bq, n = weights_of(q, q.weights)
        prove('the number of parameters', ok(q.dim == n == dim - 1 and tuple(q.weights.shape) == (n,)))
        if not keep:
            prove('started from zero', And([v == 0 for l in fq.values() for v in l] + [b == 0 for b in bq]))
            return
        prove('every feature keeps its weight', And([fq[f][0] == fo[f][0] for f in range(N)]))
        for p, b in zip(q.partition, bq):
            src = [k for k, u in enumerate(parts) if set(u) <= set(p)]
            prove('biases follow their parts; that of the joined part is the sum', b == (bo[src[0]] if len(src) == 1 else bo[src[0]] + bo[src[1]]))
    us.append(Unit(E, 'FactorizedLinearClassifier.merge_partitions', d_merge))

    def all_partitions(l):
        if not l:
            return [[]]
        out = []
        for p in all_partitions(l[1:]):
            out.append([[l[0]]] + p)
            for k in range(len(p)):
                out.append(p[:k] + [[l[0]] + p[k]] + p[k + 1:])
        return out
    canon = lambda p: tuple(sorted(tuple(sorted(int(x) for x in g)) for g in p))

    def d_select(greedy):
        def run():
            c = ctx()
            S, M = E.load(PART_LEARN), E.load(PART_LIN)
            N = 1 + c.choose(3)
            mp_ = (None, 1, 2, 4)[c.choose(4)]
            md = (None, 1, 2)[c.choose(3)]
            lossof, asked = {}, []

            def loss(p):
                k = canon(p)
                if k not in lossof:
                    lossof[k] = symreal('loss')
                asked.append(k)
                return lossof[k]
            X, y = mat('X', size('n', 1), N), Opq()
            lr = Opq()

            def fal(X_, y_, p, x0=None):
                prove('trained on the given data', z3.BoolVal(X_ is X and y_ is y))
                prove('only partitions of the features are tried', z3.BoolVal(sorted(x for g in p for x in g) == list(range(N)) and all(len(g) for g in p)))
                clf = M.FactorizedLinearClassifier([list(g) for g in p], vec('w', N + len(p)))
                return clf, loss(p)
            lr.fit_and_loss = fal
            lr.compute_factorization_loss = lambda X_, y_, p, x0=None: fal(X_, y_, p)[1]
            o = (S.GreedySelector if greedy else S.BruteForceSelector)(mp_, md)
            D, K = min(N, md or N), min(N, mp_ or N)
            r, err = raised(lambda: o(X, y, lr), ValueError)
            prove('impossible limits are rejected', z3.BoolVal((err is not None) == (K * D < N)))
            if err is not None:
                return
            res = [list(g) for g in r]
            prove('a partition: every feature exactly once', z3.BoolVal(sorted(x for g in res for x in g) == list(range(N)) and all(len(g) for g in res)))
            prove('no part is larger than allowed', z3.BoolVal(max(map(len, res)) <= D))
            if not greedy:
                prove('no more parts than allowed', z3.BoolVal(len(res) <= K))
                ok = [canon(p) for p in all_partitions(list(range(N))) if max(map(len, p)) <= D and len(p) <= K]
                if asked:
                    prove('every allowed partition was tried', z3.BoolVal(set(ok) <= set(asked)))
                    prove('the best allowed partition', And([lossof[canon(res)].t <= lossof[k].t for k in ok]))
                else:
                    prove('the only allowed partition', z3.BoolVal(canon(res) in ok and (len(ok) == 1 or K == 1 or D == 1)))
            elif asked:
                prove('the best partition tried', And([lossof[canon(res)].t <= lossof[k].t for k in set(asked)]))
        return run
    us.append(Unit(E, 'BruteForceSelector', d_select(False)))
    us.append(Unit(E, 'GreedySelector', d_select(True)))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
