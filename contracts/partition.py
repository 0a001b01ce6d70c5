"""Contracts of explore/partitioned.py, explore/index.py and explore/labeledset.py (C01, C02)."""
from .common import *

CLS = 'PartitionedDataset'

_MOVES = ['PartitionedDataset.__init__', 'PartitionedDataset.clear', 'PartitionedDataset.move_to_labeled', 'PartitionedDataset.move_to_inferred',
          'PartitionedDataset.move_to_unknown', 'PartitionedDataset.remove_inferred', 'PartitionedDataset.__move_left/__move_right/__swap_rows (inlined)',
          'PartitionedDataset.set_partial_labels', 'IndexedDataset.__init__/__getitem__/swap_rows', 'Index.__init__/get_rows/swap_index', 'LabeledSet.concat/get_index']
FUNCTIONS = {'C01': _MOVES + ['PartitionedDataset observers: data, index, labeled, unknown, inferred, unlabeled, from_index, sizes'],
             'C02': _MOVES + ['PartitionedDataset.training_set', 'PartitionedDataset.last_training_set', 'PartitionedDataset.predict_user_labels']}
_SHAPE = ['the identifiers loaded are distinct',
          'numpy fancy indexing, slicing and argsort by their contracts (a sorted permutation; rows copied, not aliased)']
ASSUMPTIONS = {'C01': _SHAPE, 'C02': _SHAPE + ['the model asked for predictions answers with one label per point']}


class PState:
    """An arbitrary partitioned dataset satisfying the representation invariant, with ghosts:
    dom0 (identifiers loaded), D (row loaded with an identifier), Y/YP (labels given by the user)."""

    def __init__(self, E, labels=True):
        P, L, I = E.load('aideme.explore.partitioned', 'aideme.explore.labeledset', 'aideme.explore.index')
        c = ctx()
        self.P, self.L, self.I = P, L, I
        self.n, self.w = size('n'), size('w', 1)
        n, w = self.n.t, self.w.t
        index, data = vec('index', self.n, 'int'), mat('data', self.n, self.w)
        d, v = c.func('dom0', Int, Bool), c.func('row0', Int, Int)
        D = c.func('D', Int, Int, Real)
        self.dom0, self.D = (lambda k: d(k)), (lambda k, j: D(k, j))
        self.inf0, self.unk0 = symint('inf'), symint('unk')
        o = P.PartitionedDataset.__new__(P.PartitionedDataset)
        ds = P.IndexedDataset(data, index, copy=False, check_data=False)
        ix = I.Index.__new__(I.Index)
        setpriv(ix, 'Index', 'index_to_row', SymDict(lambda k: d(k), lambda k: wrap(v(k))))
        setpriv(o, CLS, 'dataset', ds)
        setpriv(o, CLS, 'index_to_row', ix)
        setpriv(o, CLS, 'inferred_start', self.inf0)
        setpriv(o, CLS, 'unknown_start', self.unk0)
        self.o = o
        self.q = size('npart', 1)
        Y, YP = c.func('Y', Int, Real), c.func('YP', Int, Int, Real)
        self.Y, self.YP = (lambda k: Y(k)), (lambda k, p: YP(k, p))
        ls = self.labeledset(self.inf0, 'ls')
        setpriv(o, CLS, 'labeled_set', ls)
        self.nl = size('nlast')
        setpriv(o, CLS, 'last_user_labeled_set', self.labeledset(self.nl, 'last'))
        self.row0 = lambda k: v(k)
        for name, t in self.inv() + self.label_inv(self.Y, self.YP):
            c.assume(t)
        c.roots.append(('self', o))

    def labeledset(self, m, base, q=None):
        """arbitrary labeled set of size m with its row map"""
        L, I = self.L, self.I
        c = ctx()
        ls = L.LabeledSet.__new__(L.LabeledSet)
        ls.labels = vec(base + '_y', m)
        ls.partial = mat(base + '_p', m, q or self.q)
        ls.index = vec(base + '_i', m, 'int')
        d, v = c.func(base + '_dom', Int, Bool), c.func(base + '_row', Int, Int)
        ix = I.Index.__new__(I.Index)
        setpriv(ix, 'Index', 'index_to_row', SymDict(lambda k: d(k), lambda k: wrap(v(k))))
        setpriv(ls, 'LabeledSet', 'index_to_row', ix)
        for _, t in self.ls_inv(ls):
            c.assume(t)
        return ls

    def ls_inv(self, ls, strong=True):
        """the row map of a labeled set: every entry is found at its row (the last one for repeated identifiers)"""
        m = dterm(ls.labels.shape[0])
        d = priv(priv(ls, 'LabeledSet', 'index_to_row'), 'Index', 'index_to_row')
        e = ls.index.reader()
        row = lambda k: t_(d.val(k))
        return [('labeled set: sizes agree', And(dterm(ls.index.shape[0]) == m, dterm(ls.partial.shape[0]) == m, m >= 0)),
                ('labeled set: lookup finds the identifier', And(
                    forall(0, m, lambda i: d.dom(e(i))),
                    Forall([Int], lambda k: Implies(d.dom(k), And(row(k) >= 0, row(k) < m, e(row(k)) == k)),
                           lambda k: [row(k)]),
                    Forall([Int], lambda k: Implies(d.dom(k), And(row(k) >= 0, row(k) < m, e(row(k)) == k)),
                           lambda k: [d.dom(k)])))]

    # -- views on the current representation
    @property
    def ds(self):
        return priv(self.o, CLS, 'dataset')

    @property
    def rowmap(self):
        return priv(priv(self.o, CLS, 'index_to_row'), 'Index', 'index_to_row')

    @property
    def inf(self):
        return num_term(priv(self.o, CLS, 'inferred_start'))

    @property
    def unk(self):
        return num_term(priv(self.o, CLS, 'unknown_start'))

    @property
    def ls(self):
        return priv(self.o, CLS, 'labeled_set')

    def row(self, k):
        return num_term(self.rowmap.val(k))

    def inv(self):
        n, w = self.n.t, self.w.t
        ix, dt, m = self.ds.index.reader(), self.ds.data.reader(), self.rowmap
        row = self.row
        def at(k):
            return And(row(k) >= 0, row(k) < n, ix(row(k)) == k)
        out = [('boundaries ordered', And(0 <= self.inf, self.inf <= self.unk, self.unk <= n)),
               ('size unchanged', And(dterm(self.ds.index.shape[0]) == n, dterm(self.ds.data.shape[0]) == n,
                                      dterm(self.ds.data.shape[1]) == w)),
               ('lookup finds the row of every position', forall(0, n, lambda i: And(m.dom(ix(i)), row(ix(i)) == i),
                                                                 None)),
               ('same identifiers', Forall([Int], lambda k: m.dom(k) == self.dom0(k),
                                              lambda k: [self.dom0(k), m.dom(k)])),
               ('every identifier is at its row', Forall([Int], lambda k: Implies(self.dom0(k), at(k)),
                                                         lambda k: [self.dom0(k)])),
               ('rows stay paired with identifiers', Forall([Int, Int], lambda i, j: Implies(
                   And(i >= 0, i < n, j >= 0, j < w), dt(i, j) == self.D(ix(i), j))))]
        return out

    def label_inv(self, Y, YP, upto=None):
        ls = self.ls
        m = self.inf if upto is None else upto
        ix, e, y, p = self.ds.index.reader(), ls.index.reader(), ls.labels.reader(), ls.partial.reader()
        q = dterm(ls.partial.shape[1])
        return self.ls_inv(ls) + [
            ('one label per labeled point', dterm(ls.labels.shape[0]) == m),
            ('labels in the order of the labeled rows', forall(0, m, lambda i: e(i) == ix(i))),
            ('label of the point', forall(0, m, lambda i: y(i) == Y(e(i)))),
            ('partial labels of the point', Implies(m > 0, q == self.q.t)),
            ('partial labels of the point', Forall([Int, Int], lambda i, j: Implies(
                And(i >= 0, i < m, j >= 0, j < q), p(i, j) == YP(e(i), j))))]

    def check(self, what, labels=None, only=None):
        for name, t in self.inv():
            prove('%s: %s' % (what, name), t)
        if labels:
            for name, t in self.label_inv(*labels):
                prove('%s: %s' % (what, name), t)

    def part(self, k, inf=None, unk=None, row=None):
        r = self.row(k) if row is None else row(k)
        inf, unk = self.inf if inf is None else inf, self.unk if unk is None else unk
        return If(r < inf, z3.IntVal(0), If(r < unk, z3.IntVal(1), z3.IntVal(2)))

    def part0(self, k):
        return self.part(k, self.inf0.t, self.unk0.t, self.row0)


def request(base='req', m=None):
    """an arbitrary finite sequence of identifiers, with ghost first(k) = first position of k (or its length)"""
    c = ctx()
    m = size('m') if m is None else m
    e, first = c.func(base, Int, Int), c.func('first', Int, Int)
    c.assume(Forall([Int], lambda k: And(first(k) >= 0, first(k) <= m.t), lambda k: [first(k)]),
             Forall([Int], lambda k: Implies(first(k) < m.t, e(first(k)) == k), lambda k: [first(k)]),
             forall(0, m.t, lambda j: first(e(j)) <= j, lambda j: [e(j)]))
    return m, (lambda j: e(j)), (lambda k: first(k))


def units(E, prop):
    labels = prop == 'C02'
    us = []

    def lab(S, Y=None, YP=None):
        return (Y or S.Y, YP or S.YP)

    # ------------------------------------------------------------------ construction and reset
    def clear_spec(get):
        def inv(L, t, g):
            S = get()
            srt = g.elem
            ix = S.ds.index.reader()
            items = [(nm, tm) for nm, tm in S.inv()]
            items.append(('prefix sorted', forall(0, t, lambda i: ix(i) == num_term(srt(i)[1]))))
            items.append(('all unknown', And(S.inf == 0, S.unk == 0)))
            return items
        return LoopSpec(inv=inv)

    cell = {}

    def post_clear(S, what):
        n = S.n.t
        ix = S.ds.index.reader()
        S.check(what)
        prove('%s: everything unknown' % what, And(S.inf == 0, S.unk == 0, t_(S.o.labeled_size) == 0,
                                                   t_(S.o.inferred_size) == 0, t_(S.o.unknown_size) == n))
        prove('%s: sorted by identifier' % what, Forall([Int, Int], lambda i, j: Implies(
            And(i >= 0, i < j, j < n), ix(i) < ix(j))))
        prove('%s: no labels' % what, And(dterm(S.o.labeled_set.labels.shape[0]) == 0))

    def d_clear():
        S = PState(E)
        cell['S'] = S
        S.o.clear()
        post_clear(S, 'reset')
    us.append(Unit(E, 'PartitionedDataset.clear', d_clear, {'PartitionedDataset.clear:for#1': clear_spec(lambda: cell['S'])}))

    def d_init():
        P, I = E.load('aideme.explore.partitioned', 'aideme.explore.index')
        c = ctx()
        S = PState.__new__(PState)
        S.P, S.I = P, I
        S.n, S.w = size('n'), size('w', 1)
        given = bool(symbool('index_given'))
        data = mat('data', S.n, S.w)
        index = vec('index', S.n, 'int') if given else None
        e = index.reader() if given else (lambda i: i)
        inv_ = c.func('where0', Int, Int)
        d0, D = c.func('dom0', Int, Bool), data.reader()
        # precondition: distinct identifiers (where0 is the inverse of the identifier array)
        assume(forall(0, S.n.t, lambda i: And(inv_(e(i)) == i, d0(e(i))), lambda i: [e(i)] if given else [d0(i), inv_(i)]),
               Forall([Int], lambda k: Implies(d0(k), And(inv_(k) >= 0, inv_(k) < S.n.t, e(inv_(k)) == k)), lambda k: [d0(k)]))
        S.dom0, S.D = (lambda k: d0(k)), (lambda k, j: D(inv_(k), j))
        real = P.PartitionedDataset
        keep = {}
        o = real.__new__(real)
        S.o = o
        cell['S'] = S
        copy = symbool('copy')
        c.roots.append(('self', o))
        c.roots.append(('data', data))
        if given:
            c.roots.append(('index', index))
        o.__init__(data, index, copy=copy)
        post_clear(S, 'construction')
        prove('lookup before/after copy', t_(len_(o)) == S.n.t)
        if bool(copy):
            rd = data.reader()
            prove('the given data is not modified', forall2(S.n.t, S.w.t, lambda i, j: rd(i, j) == D(i, j)))
            if given:
                ri = index.reader()
                prove('the given identifiers are not modified', forall(0, S.n.t, lambda i: ri(i) == e(i)))
    us.append(Unit(E, 'PartitionedDataset.__init__', d_init, {'PartitionedDataset.clear:for#1': clear_spec(lambda: cell['S'])}))

    # ------------------------------------------------------------------ moves
    def move_inv(target):
        def inv(L, t, g):
            S, e, first, Y, YP = cell['S'], cell['e'], cell['first'], cell['Y'], cell['YP']
            items = list(S.inv())
            mv = lambda k: first(k) < t
            items.append(('requested points moved, others unchanged', Forall([Int], lambda k: Implies(
                S.dom0(k), S.part(k) == If(mv(k), z3.IntVal(target), S.part0(k))), lambda k: [S.dom0(k)])))
            items.append(('requests so far were legal', forall(0, t, lambda j: And(
                S.dom0(e(j)), S.part0(e(j)) != target, first(e(j)) == j), lambda j: [e(j)])))
            if target == 0:
                items.append(('labeled grows by one per request', S.inf == S.inf0.t + t))
                ix = S.ds.index.reader()
                items.append(('new labeled rows in the order of the batch', forall(0, t, lambda j: ix(S.inf0.t + j) == e(j),
                                                                                  None)))
                ix0 = cell['ix0']
                items.append(('old labeled rows untouched', forall(0, S.inf0.t, lambda i: ix(i) == ix0(i))))
            else:
                items += S.label_inv(Y, YP)
            return items
        return inv

    def ls_type(c):
        S = cell['S']
        m = symint('lsn')
        assume(m.t >= 0)
        q = symint('lsq')
        assume(q.t >= 0)
        return S.labeledset(m, 'lsh', q)

    def driver(target, call):
        def d():
            S = PState(E)
            cell['S'] = S
            c = ctx()
            m, e, first = request()
            cell.update(e=e, first=first, Y=S.Y, YP=S.YP, ix0=S.ds.index.reader())
            tgt = ['labeled', 'inferred', 'unknown'][target]
            newls = None
            if target == 0:
                newls = S.labeledset(m, 'new')
                ne = newls.index.reader()
                assume(forall(0, m.t, lambda j: ne(j) == e(j)))
                assume(forall(0, m.t, lambda j: True))
                arg = newls
                ny, np_ = newls.labels.reader(), newls.partial.reader()
                cell['e'] = e = (lambda j, ne=ne: ne(j))
                assume(Forall([Int], lambda k: Implies(first(k) < m.t, ne(first(k)) == k), lambda k: [first(k)]),
                       forall(0, m.t, lambda j: first(ne(j)) <= j, lambda j: [ne(j)]))
            else:
                arg = Arr.make((m,), 'int', e)
            try:
                call(S.o, arg)
            except (ValueError, KeyError) as ex:
                j = c.const('bad', Int)
                bad = lambda j: Or(Not(S.dom0(e(j))), S.part0(e(j)) == target, first(e(j)) < j)
                prove('an error is raised only for an unknown identifier or a point already in the partition',
                      Exists([Int], lambda j: And(j >= 0, j < m.t, bad(j))))
                if not labels:
                    S.check('after a rejected move')
                cover('rejected move')
                return
            cover('successful move')
            if target == 0:
                Y2 = lambda k: If(first(k) < m.t, ny(first(k)), S.Y(k))
                YP2 = lambda k, p: If(first(k) < m.t, np_(first(k), p), S.YP(k, p))
            else:
                Y2, YP2 = S.Y, S.YP
            if labels:
                for nm, tm in S.label_inv(Y2, YP2):
                    prove('move_to_%s: %s' % (tgt, nm), tm)
                if target == 0:
                    # the last training set is the batch, in its order
                    X, y = S.o.last_training_set()
                    X2, yp = S.o.last_training_set(get_partial=True)
                    xr, yr, x2r, ypr = X.reader(), y.reader(), X2.reader(), yp.reader()
                    prove('last batch: size', And(dterm(X.shape[0]) == m.t, dterm(y.shape[0]) == m.t,
                                                  dterm(X2.shape[0]) == m.t, dterm(yp.shape[0]) == m.t))
                    prove('last batch: rows of its points, in order', forall2(m.t, S.w.t, lambda i, j: And(
                        xr(i, j) == S.D(e(i), j), x2r(i, j) == S.D(e(i), j))))
                    prove('last batch: labels', forall(0, m.t, lambda i: yr(i) == ny(i)))
                    prove('last batch: partial labels', forall2(m.t, S.q.t, lambda i, j: ypr(i, j) == np_(i, j)))
            else:
                S.check('move_to_' + tgt)
                prove('move_to_%s: every requested point is there' % tgt, forall(0, m.t, lambda j: And(
                    S.dom0(e(j)), S.part(e(j)) == target)))
                prove('move_to_%s: no other point changes partition' % tgt, Forall([Int], lambda k: Implies(
                    And(S.dom0(k), first(k) >= m.t), S.part(k) == S.part0(k)), lambda k: [S.dom0(k)]))
                prove('move_to_%s: requests of points already there are rejected' % tgt, forall(0, m.t, lambda j: (
                    S.part0(e(j)) != target)))
                prove('sizes add up', t_(S.o.labeled_size) + t_(S.o.inferred_size) + t_(S.o.unknown_size) == S.n.t)
        return d

    names = ['move_to_labeled', 'move_to_inferred', 'move_to_unknown']
    for k, nm in enumerate(names):
        us.append(Unit(E, 'PartitionedDataset.' + nm, driver(k, lambda o, a, nm=nm: getattr(o, nm)(a)),
                       {'PartitionedDataset.%s:for#1' % nm: LoopSpec(inv=move_inv(k), types={
                           '_PartitionedDataset__labeled_set': ls_type})}))

    # ------------------------------------------------------------------ flush
    def d_flush():
        S = PState(E)
        S.o.remove_inferred()
        if labels:
            for nm, tm in S.label_inv(S.Y, S.YP):
                prove('flush: ' + nm, tm)
            return
        S.check('flush')
        prove('flush: inferred points become unknown, others stay', Forall([Int], lambda k: Implies(
            S.dom0(k), S.part(k) == If(S.part0(k) == 0, z3.IntVal(0), z3.IntVal(2))), lambda k: [S.dom0(k)]))
    us.append(Unit(E, 'PartitionedDataset.remove_inferred', d_flush))

    # ------------------------------------------------------------------ observers
    def d_observers():
        S = PState(E)
        n, w = S.n.t, S.w.t
        ix0, dt0 = S.ds.index.reader(), S.ds.data.reader()
        o = S.o
        lo = {'labeled': (0, S.inf), 'inferred': (S.inf, S.unk), 'unknown': (S.unk, n), 'unlabeled': (S.inf, n)}
        for nm, (a, b) in lo.items():
            v = getattr(o, nm)
            vi, vd = v.index.reader(), v.data.reader()
            prove('%s: exactly the rows of the partition' % nm, And(
                dterm(v.index.shape[0]) == b - a, dterm(v.data.shape[0]) == b - a,
                forall(0, b - a, lambda i: vi(i) == ix0(a + i)), forall2(b - a, w, lambda i, j: vd(i, j) == S.D(vi(i), j))))
            prove('%s_size' % nm, t_(getattr(o, nm + '_size')) == b - a)
        prove('len', t_(len_(o)) == n)
        m = size('m')
        req = vec('req', m, 'int')
        e = req.reader()
        assume(forall(0, m.t, lambda j: S.dom0(e(j)), lambda j: [e(j)]))
        got = o.from_index(req)
        gi, gd = got.index.reader(), got.data.reader()
        prove('lookup by identifier returns the row loaded with it', And(
            dterm(got.index.shape[0]) == m.t, forall(0, m.t, lambda j: gi(j) == e(j)),
            forall2(m.t, w, lambda i, j: gd(i, j) == S.D(e(i), j))))
        ix, dt = S.ds.index.reader(), S.ds.data.reader()
        prove('observers do not modify the dataset', And(forall(0, n, lambda i: ix(i) == ix0(i)),
                                                         forall2(n, w, lambda i, j: dt(i, j) == dt0(i, j))))
    if not labels:
        us.append(Unit(E, 'PartitionedDataset observers', d_observers))

    def d_training():
        S = PState(E)
        w = S.w.t
        ix = S.ds.index.reader()
        for part in (False, True):
            X, y = S.o.training_set(get_partial=part)
            xr, yr = X.reader(), y.reader()
            prove('training set: one entry per labeled point', And(dterm(X.shape[0]) == S.inf, dterm(y.shape[0]) == S.inf))
            prove('training set: rows', forall2(S.inf, w, lambda i, j: xr(i, j) == S.D(ix(i), j)))
            if part:
                prove('training set: partial labels', forall2(S.inf, S.q.t, lambda i, j: yr(i, j) == S.YP(ix(i), j)))
            else:
                prove('training set: labels', forall(0, S.inf, lambda i: yr(i) == S.Y(ix(i))))

    class Model(Opq):
        def __init__(self):
            self.f = ctx().func('prediction', Int, Real)
            self.calls = []

        def predict(self, X):
            # an arbitrary function of the rows: identified here by the position asked for
            self.calls.append(X)
            f = self.f
            return Arr.make((X.shape[0],), 'real', lambda i: f(i))

    def d_predict():
        S = PState(E)
        mdl = Model()
        n, w = S.n.t, S.w.t
        ls = S.o.predict_user_labels(mdl)
        li, ly = ls.index.reader(), ls.labels.reader()
        ix = S.ds.index.reader()
        inf = S.inf
        prove('prediction covers the whole dataset', And(dterm(ls.labels.shape[0]) == n, dterm(ls.index.shape[0]) == n))
        prove('labels given by the user are kept', forall(0, inf, lambda i: And(ly(i) == S.Y(li(i)), li(i) == ix(i))))
        if mdl.calls:
            X = mdl.calls[-1]
            xr = X.reader()
            prove('the model predicts the other points, in place', And(
                dterm(X.shape[0]) == n - inf,
                forall(0, n - inf, lambda i: And(ly(inf + i) == mdl.f(i), li(inf + i) == ix(inf + i))),
                forall2(n - inf, w, lambda i, j: xr(i, j) == S.D(li(inf + i), j))))
        else:
            prove('the model is used when some point is unlabeled', inf == n)

    def d_setpartial():
        S = PState(E)
        c = ctx()
        r = symint('r')
        assume(r.t >= 0)
        p = mat('newp', r, S.q)
        pr = p.reader()
        try:
            S.o.set_partial_labels(p)
        except ValueError:
            prove('rejected only for a wrong number of rows', r.t != S.inf)
            return
        X, y = S.o.training_set(get_partial=True)
        yr = y.reader()
        prove('partial labels replaced', And(r.t == S.inf, dterm(y.shape[0]) == S.inf,
                                             forall2(S.inf, S.q.t, lambda i, j: yr(i, j) == pr(i, j))))
    if labels:
        us.append(Unit(E, 'PartitionedDataset.training_set', d_training))
        us.append(Unit(E, 'PartitionedDataset.predict_user_labels', d_predict))
        us.append(Unit(E, 'PartitionedDataset.set_partial_labels', d_setpartial))
    return us


def len_(o):
    return type(o).__len__(o)
