"""Contracts of explore/labeledset.py, explore/manager.py, explore/explore.py, utils/convergence.py and the point
selection of active_learning/active_learner.py and random.py (C03, C04, C05, C06, C07)."""
import inspect

import enum

from .common import *

FUNCTIONS = {
    'C03': ['LabeledSet.__init__', 'LabeledSet.asdict', 'LabeledSet.set_partial_labels', 'LabeledSet.get_index', 'LabeledSet.concat',
            'LabeledSet.num_partitions', 'LabeledSet.has_positive_and_negative_labels', 'Index.__init__', 'Index.get_rows'],
    'C04': ['ExplorationManager.__init__', 'ExplorationManager.update', 'ExplorationManager.get_next_to_label',
            'ExplorationManager.clear', 'ExplorationManager.phase', 'ExplorationManager.is_exploration_phase',
            'ExplorationManager.compute_user_labels_prediction', 'LabeledSet.has_positive_and_negative_labels',
            'ActiveLearner.fit_data', 'FactorizedActiveLearner.fit_data'],
    'C05': ['ExplorationManager.__init__', 'ExplorationManager.converged', 'ExplorationManager.get_callback_metrics',
            'max_iter_reached', 'metric_reached_threshold', 'all_points_are_labeled', 'process_callback'],
    'C06': ['PoolBasedExploration.__init__', 'PoolBasedExploration.run', 'PoolBasedExploration._run',
            'PoolBasedExploration.__run_single_iter', 'PoolBasedExploration.__get_seed', 'LabeledSet.asdict'],
    'C07': ['ActiveLearner.next_points_to_label', 'ActiveLearner._select_next', 'RandomSampler._select_next',
            'IndexedDataset.sample', 'IndexedDataset.__getitem__', 'PartitionedDataset.unlabeled', 'PartitionedDataset.sample'],
}
ASSUMPTIONS = {
    'C03': ['identifiers within one labeled set are distinct for selection (lookup of a repeated identifier returns its last entry)'],
    'C04': ['dataset, learner and sampler are opaque: arbitrary answers, calls recorded (their own contracts: C01, C02, C07, C22)'],
    'C05': ['criteria and callbacks are arbitrary functions that do not themselves call the manager'],
    'C06': ['manager, dataset and learner methods by their contracts (C01, C04, C05)'],
    'C07': ['the rank function returns one finite number per row'],
}


# ------------------------------------------------------------------------------------------------ helpers
class Obj(Opq):
    """opaque component with recorded calls"""

    def __init__(self, name, log, **methods):
        self._pv_name, self._pv_log, self._pv_m = name, log, methods

    def __getattr__(self, k):
        if k.startswith('__') or k.startswith('_pv_'):
            raise AttributeError(k)
        m = self._pv_m.get(k)
        if m is None:
            ctx().unsupported('%s.%s is not part of the contract of this component' % (self._pv_name, k))
        if getattr(m, '_pv_prop', False):
            return m()
        def call(*a, **kw):
            self._pv_log.append((self._pv_name + '.' + k, a, kw))
            return m(*a, **kw)
        return call


def bound(cls, call):
    """the options of a recorded construction by parameter name, defaults included"""
    b = inspect.signature(cls.__init__).bind(None, *call[1], **call[2])
    b.apply_defaults()
    r = dict(b.arguments)
    for k in [q for q, p in b.signature.parameters.items() if p.kind is p.VAR_KEYWORD]:
        r.update(r.pop(k, {}))
    return r


def prop(f):
    f._pv_prop = True
    return f


def labeled_set(E, n=None, q=None, base='ls', kind='real', distinct=True):
    """an arbitrary labeled set built by the real constructor; (ls, n, q, label, partial, identifier readers)"""
    L = E.load('aideme.explore.labeledset')
    n = size('n') if n is None else n
    q = size('q', 1) if q is None else q
    y, p, i = vec(base + '_y', n, kind), mat(base + '_p', n, q), vec(base + '_i', n, 'int')
    if distinct:
        inv = ctx().func('where', Int, Int)
        e = i.reader()
        assume(forall(0, dterm(n), lambda j: inv(e(j)) == j, lambda j: [e(j)]))
    return L.LabeledSet(y, p, i), n, q, y.reader(), p.reader(), i.reader()


def raised(fn, *exc):
    try:
        return fn(), None
    except exc as e:
        return None, e


def list_is(l, n, reader):
    k, el = as_seq(l)
    return And(dterm(k) == n, forall(0, n, lambda j: num_term(el(j)) == reader(j)))


def rows_are(l, n, q, reader):
    k, el = as_seq(l)
    i, j = ctx().const('i', Int), ctx().const('j', Int)
    assume(i >= 0, i < n, j >= 0, j < q)
    n2, row = as_seq(el(i))
    return And(dterm(k) == n, dterm(n2) == q, num_term(row(j)) == reader(i, j))


# ------------------------------------------------------------------------------------------------ C03
def units_C03(E):
    us = []
    L = lambda: E.load('aideme.explore.labeledset')

    def d_init():
        n, r, k, q = size('n'), size('r'), size('k'), size('q')
        y = vec('y', n)
        ry = y.reader()
        pform = ctx().choose(3)
        part = None if pform == 0 else mat('p', r, q) if pform == 1 else vec('p1', r)
        index = vec('i', k, 'int') if bool(symbool('has_index')) else None
        rp = part.reader() if part is not None else None
        ls, err = raised(lambda: L().LabeledSet(y, part, index), ValueError)
        wrong = Or(z3.BoolVal(pform == 2), And(z3.BoolVal(pform == 1), r.t != n.t),
                   And(z3.BoolVal(index is not None), k.t != n.t))
        if err is not None:
            prove('rejected only for mismatched sizes or non-matrix partial labels', wrong)
            cover('rejected')
            return
        cover('accepted')
        prove('mismatched sizes are rejected', Not(wrong))
        prove('one entry per label', And(t_(len_(ls)) == n.t, dterm(ls.labels.shape[0]) == n.t, dterm(ls.index.shape[0]) == n.t,
                                         dterm(ls.partial.shape[0]) == n.t))
        gy, gp, gi = ls.labels.reader(), ls.partial.reader(), ls.index.reader()
        prove('labels kept', forall(0, n.t, lambda j: gy(j) == ry(j)))
        if part is None:
            prove('partial labels default to the final labels', And(
                dterm(ls.partial.shape[1]) == 1, t_(ls.num_partitions) == 1, forall(0, n.t, lambda j: gp(j, z3.IntVal(0)) == ry(j))))
        else:
            prove('partial labels kept', And(t_(ls.num_partitions) == q.t, forall2(n.t, q.t, lambda i, j: gp(i, j) == rp(i, j))))
        if index is not None:
            ri = index.reader()
            prove('identifiers kept', forall(0, n.t, lambda j: gi(j) == ri(j)))
        else:
            prove('default identifiers are 0..n-1', forall(0, n.t, lambda j: gi(j) == j))
    us.append(Unit(E, 'LabeledSet.__init__', d_init))

    def d_select():
        ls, n, q, y, p, e = labeled_set(E)
        m = size('m')
        r = vec('req', m, 'int')
        rr = r.reader()
        w = ctx().func('w', Int, Int)
        known = lambda k: Exists([Int], lambda j: And(j >= 0, j < n.t, e(j) == k))
        got, err = raised(lambda: ls.get_index(r), KeyError)
        if err is not None:
            j = ctx().const('j', Int)
            prove('an error only for an unknown identifier', Exists([Int], lambda j: And(
                j >= 0, j < m.t, Not(known(rr(j))))))
            cover('unknown identifier')
            return
        cover('selected')
        gy, gp, gi = got.labels.reader(), got.partial.reader(), got.index.reader()
        prove('one entry per requested identifier', And(dterm(got.labels.shape[0]) == m.t, dterm(got.partial.shape[0]) == m.t,
                                                        dterm(got.index.shape[0]) == m.t, dterm(got.partial.shape[1]) == q.t))
        prove('identifiers in the requested order', forall(0, m.t, lambda j: gi(j) == rr(j)))
        u = ctx().const('u', Int)
        v = ctx().const('v', Int)
        prove('only known identifiers are accepted', Not(And(u >= 0, u < m.t, v == rr(u), forall(0, n.t, lambda j: e(j) != v))))
        # entry of the requested identifier, for an arbitrary requested position j and an arbitrary entry i with that identifier
        i, j = ctx().const('i', Int), ctx().const('j', Int)
        assume(i >= 0, i < n.t, j >= 0, j < m.t, e(i) == rr(j))
        prove('label of the requested identifier', gy(j) == y(i))
        k = ctx().const('k', Int)
        assume(k >= 0, k < q.t)
        prove('partial labels of the requested identifier', gp(j, k) == p(i, k))
        a, b, c_ = ls.labels.reader(), ls.partial.reader(), ls.index.reader()
        prove('the labeled set is not modified', And(forall(0, n.t, lambda j: And(a(j) == y(j), c_(j) == e(j))),
                                                     forall2(n.t, q.t, lambda i, j: b(i, j) == p(i, j))))
    us.append(Unit(E, 'LabeledSet.get_index', d_select))

    def d_concat():
        a, n, q, ya, pa, ea = labeled_set(E, base='a')
        b, m, q2, yb, pb, eb = labeled_set(E, base='b')
        got, err = raised(lambda: a.concat(b), ValueError)
        if err is not None:
            prove('rejected only when both have entries and different numbers of partial labels', And(n.t > 0, m.t > 0, q.t != q2.t))
            return
        cover('joined')
        gy, gp, gi = got.labels.reader(), got.partial.reader(), got.index.reader()
        prove('sizes add up', And(dterm(got.labels.shape[0]) == n.t + m.t, dterm(got.partial.shape[0]) == n.t + m.t,
                                  dterm(got.index.shape[0]) == n.t + m.t))
        qg = dterm(got.partial.shape[1])
        prove('entries of the first, in order', And(
            forall(0, n.t, lambda j: And(gy(j) == ya(j), gi(j) == ea(j))), Implies(n.t > 0, qg == q.t),
            forall2(n.t, q.t, lambda i, j: gp(i, j) == pa(i, j))))
        prove('then the entries of the second, in order', And(
            forall(0, m.t, lambda j: And(gy(n.t + j) == yb(j), gi(n.t + j) == eb(j))), Implies(m.t > 0, qg == q2.t),
            forall2(m.t, q2.t, lambda i, j: gp(n.t + i, j) == pb(i, j))))
        for ls, nn, qq, y, p, e in ((a, n, q, ya, pa, ea), (b, m, q2, yb, pb, eb)):
            x, z, u = ls.labels.reader(), ls.partial.reader(), ls.index.reader()
            prove('the arguments are not modified', And(
                dterm(ls.labels.shape[0]) == nn.t, forall(0, nn.t, lambda j: And(x(j) == y(j), u(j) == e(j))),
                forall2(nn.t, qq.t, lambda i, j: z(i, j) == p(i, j))))
        # a selection from the joined set finds the entries of both (lookup is consistent with the arrays)
        k = ctx().const('pick', Int)
        assume(k >= 0, k < n.t + m.t)
        inv = ctx().func('wherejoin', Int, Int)
        assume(forall(0, n.t + m.t, lambda j: inv(gi(j)) == j, lambda j: [inv(gi(j))]), inv(gi(k)) == k,
               Forall([Int], lambda j: Implies(And(j >= 0, j < n.t + m.t), inv(gi(j)) == j)))
        for x in E.heap.walk([('got', got)]):
            if isinstance(x[4], SymDict) and hasattr(x[4], 'instance'):
                x[4].instance(k)
        one = got.get_index([wrap(gi(k))])
        oy, oi, op = one.labels.reader(), one.index.reader(), one.partial.reader()
        z0 = z3.IntVal(0)
        prove('lookup in the joined set', And(oy(z0) == gy(k), oi(z0) == gi(k)))
    us.append(Unit(E, 'LabeledSet.concat', d_concat))

    def d_setpartial():
        ls, n, q, y, p, e = labeled_set(E)
        r, q2 = size('r'), size('q2')
        mform = ctx().choose(3)
        new = None if mform == 2 else mat('np', r, q2) if mform == 0 else vec('nv', r)
        rn = new.reader() if new is not None else None
        _, err = raised(lambda: ls.set_partial_labels(new), ValueError)
        gy, gp, gi = ls.labels.reader(), ls.partial.reader(), ls.index.reader()
        if err is not None:
            prove('rejected only for a wrong shape', Or(z3.BoolVal(mform == 1), r.t != n.t))
            prove('a rejected assignment changes nothing', forall2(n.t, q.t, lambda i, j: gp(i, j) == p(i, j)))
            return
        if mform == 2:
            prove('default', forall(0, n.t, lambda j: gp(j, z3.IntVal(0)) == y(j)))
        else:
            prove('wrong shapes are rejected', And(z3.BoolVal(mform == 0), r.t == n.t))
            prove('partial labels replaced', forall2(n.t, q2.t, lambda i, j: gp(i, j) == rn(i, j)))
        prove('final labels and identifiers untouched', forall(0, n.t, lambda j: And(gy(j) == y(j), gi(j) == e(j))))
    us.append(Unit(E, 'LabeledSet.set_partial_labels', d_setpartial))

    def d_posneg():
        ls, n, q, y, p, e = labeled_set(E, kind='int')
        assume(forall(0, n.t, lambda j: Or(y(j) == 0, y(j) == 1), lambda j: [y(j)]))
        r = as_term(ls.has_positive_and_negative_labels())
        ex = lambda v: Exists([Int], lambda j: And(j >= 0, j < n.t, y(j) == v))
        prove('true only with a positive and a negative', Implies(r, And(ex(1), ex(0))))
        i, j = ctx().const('i', Int), ctx().const('j', Int)
        assume(i >= 0, i < n.t, j >= 0, j < n.t)
        prove('true whenever there are both', Implies(And(y(i) == 1, y(j) == 0), r))
    us.append(Unit(E, 'LabeledSet.has_positive_and_negative_labels', d_posneg))

    def d_asdict():
        ls, n, q, y, p, e = labeled_set(E)
        noisy = bool(ctx().choose(2))
        d = ls.asdict(noisy=True) if noisy else ls.asdict()
        pre = 'noisy_' if noisy else ''
        prove('exactly the documented entries', z3.BoolVal(set(d) == {pre + 'labels', pre + 'partial_labels'} | (set() if noisy else {'labeled_indexes'})))
        prove('the labels in order', list_is(d[pre + 'labels'], n.t, y))
        prove('the partial labels in order', rows_are(d[pre + 'partial_labels'], n.t, q.t, p))
        if not noisy:
            prove('the identifiers in order', list_is(d['labeled_indexes'], n.t, e))
        a, b, c_ = ls.labels.reader(), ls.partial.reader(), ls.index.reader()
        prove('the labeled set is not modified', And(forall(0, n.t, lambda j: And(a(j) == y(j), c_(j) == e(j))),
                                                     forall2(n.t, q.t, lambda i, j: b(i, j) == p(i, j))))
    us.append(Unit(E, 'LabeledSet.asdict', d_asdict))
    return us


def len_(o):
    return type(o).__len__(o)


# ------------------------------------------------------------------------------------------------ C04 / C05
def manager(E, log, sampler=None, **kw):
    """manager over an opaque dataset and learner"""
    M, = (E.load('aideme.explore.manager'),)
    st = {'v': 0}
    total_ = size('points')
    width = size('width', 1)

    def sizes():
        for k in ('unl', 'inf', 'lab'):
            st[k] = size(k)
        st['unk'] = size('unk')
        assume(And(st['unl'].t == st['inf'].t + st['unk'].t, total_.t == st['unl'].t + st['lab'].t))
        st['X'], st['y'] = mat('training', st['lab'], width), vec('labels', st['lab'])
    sizes()
    both = {}

    class LS(Opq):
        def __init__(self, v):
            self.v = v

        def has_positive_and_negative_labels(self):
            if self.v not in both:
                both[self.v] = symbool('both%d' % self.v)
            return both[self.v]

    def move(ls):
        st['v'] += 1
        sizes()
    data = Obj('data', log, move_to_labeled=move, labeled_set=prop(lambda: LS(st['v'])),
               unlabeled_size=prop(lambda: st['unl']), inferred_size=prop(lambda: st['inf']), unknown_size=prop(lambda: st['unk']),
               labeled_size=prop(lambda: st['lab']), training_set=lambda get_partial=False: (st['X'], st['y']), from_index=lambda idx: ('from_index', idx),
               clear=lambda: move(None), predict_user_labels=lambda al: ('prediction', al),
               remove_inferred=lambda: sizes(), move_to_inferred=lambda ix: sizes(), move_to_unknown=lambda ix: move(None))
    learner = Obj('learner', log, fit_data=lambda d: None, next_points_to_label=lambda d, s=None, **k: ('next', d, s, k),
                  clear=lambda: None)
    smp = None
    if sampler:
        class Sampler(Opq):
            def __call__(self, d):
                log.append(('sampler', (d,), {}))
                return 'sampled'
        smp = Sampler()
    m = M.ExplorationManager(data, learner, initial_sampler=smp, **kw)
    k = '_ExplorationManager__iters'
    priv(m, 'ExplorationManager', 'iters')
    it = symint('iters')
    assume(it.t >= 0)
    object.__setattr__(m, k, it)
    return M, m, data, learner, smp, st, both, it


def units_C04(E):
    us = []

    def phase_term(st, both, smp):
        if smp is None:
            return z3.BoolVal(True)
        if st['v'] not in both:
            both[st['v']] = symbool('both%d' % st['v'])
        return both[st['v']].t

    def d_update():
        log = []
        M, m, data, learner, smp, st, both, it = manager(E, log, sampler=ctx().choose(2))
        del log[:]
        batch = object()
        m.update(batch)
        names = [x[0] for x in log if x[0] in ('data.move_to_labeled', 'learner.fit_data', 'learner.fit', 'data.clear',
                                               'learner.clear', 'sampler')]
        exp = phase_term(st, both, smp)
        prove('only the given points are moved', z3.BoolVal(not any(x[0] in ('data.remove_inferred', 'data.move_to_inferred', 'data.move_to_unknown') for x in log)))
        stored = names[:1] == ['data.move_to_labeled'] and log[0][1][0] is batch and names.count('data.move_to_labeled') == 1
        prove('the labels are stored first, once', z3.BoolVal(stored))
        prove('the model is fitted exactly once in the exploration phase, on the dataset', Implies(exp, z3.BoolVal(
            names == ['data.move_to_labeled', 'learner.fit_data'] and log[-1][1][0] is data)))
        prove('the model is not fitted in the initial phase', Implies(Not(exp), z3.BoolVal(names == ['data.move_to_labeled'])))
        prove('one more iteration', t_(m.iters) == it.t + 1)
        cover('updated')
    us.append(Unit(E, 'ExplorationManager.update', d_update))

    def d_rejected():
        log = []
        M, m, data, learner, smp, st, both, it = manager(E, log, sampler=ctx().choose(2))
        def bad(ls):
            raise ValueError('rejected')
        data._pv_m['move_to_labeled'] = bad
        _, err = raised(lambda: m.update(object()), ValueError)
        prove('a rejected batch is reported', z3.BoolVal(err is not None))
        prove('a rejected batch is no iteration and no fit', And(t_(m.iters) == it.t, z3.BoolVal(
            not any(x[0].startswith('learner.') for x in log))))
    us.append(Unit(E, 'ExplorationManager.update (rejected batch)', d_rejected))

    def d_next():
        log = []
        sub = size('sub', 1) if ctx().choose(2) else None
        M, m, data, learner, smp, st, both, it = manager(E, log, sampler=ctx().choose(2), subsampling=sub)
        del log[:]
        r = m.get_next_to_label()
        unl = st['unl'].t
        names = [x[0] for x in log]
        if r is None:
            prove('nothing proposed only when nothing is unlabeled', unl == 0)
            prove('nobody is asked then', z3.BoolVal(not any(x in names for x in ('sampler', 'learner.next_points_to_label'))))
            cover('exhausted')
            return
        prove('no proposal when nothing is unlabeled', unl > 0)
        exp = phase_term(st, both, smp)
        if r[0] == 'from_index':
            prove('the sampler proposes in the initial phase only', Not(exp))
            prove('the points chosen by the sampler are looked up', z3.BoolVal(
                r[1] == 'sampled' and names.count('sampler') == 1 and [x for x in log if x[0] == 'sampler'][0][1][0] is data))
            prove('the model is not consulted', z3.BoolVal('learner.next_points_to_label' not in names))
        else:
            prove('the model proposes in the exploration phase only', exp)
            got = r[2] if not r[3] else r[3].get('subsample')
            prove('the model proposes from the dataset with the configured sample size', z3.BoolVal(
                r[0] == 'next' and r[1] is data and (got is sub)))
            prove('the sampler is not consulted', z3.BoolVal('sampler' not in names))
        prove('proposing is no iteration', t_(m.iters) == it.t)
    us.append(Unit(E, 'ExplorationManager.get_next_to_label', d_next))

    def d_phase():
        log = []
        M, m, data, learner, smp, st, both, it = manager(E, log, sampler=ctx().choose(2))
        exp = phase_term(st, both, smp)
        prove('exploration phase', as_term(m.is_exploration_phase) == exp)
        prove('initial phase', as_term(not_(m.is_initial_sampling_phase)) == exp)
        ph = m.phase
        prove('phase name', If(exp, z3.BoolVal(ph is M.Phase.EXPLORE and ph.value == 'exploration'),
                               z3.BoolVal(ph is M.Phase.INITIAL and ph.value == 'initial_sampling')))
    us.append(Unit(E, 'ExplorationManager.phase', d_phase))

    def d_clear():
        log = []
        M, m, data, learner, smp, st, both, it = manager(E, log, sampler=ctx().choose(2))
        fresh = t_(m.iters)
        del log[:]
        m.clear()
        names = sorted(x[0] for x in log)
        prove('the dataset and the model are reset', z3.BoolVal(names == ['data.clear', 'learner.clear']))
        prove('no iteration done', t_(m.iters) == 0)
    us.append(Unit(E, 'ExplorationManager.clear', d_clear))

    def d_init():
        M = E.load('aideme.explore.manager')
        sub = [None, 0, -1, symint('sub')][ctx().choose(4)]
        skip = [0, -3, symint('skip')][ctx().choose(3)]
        m, err = raised(lambda: M.ExplorationManager(Obj('data', []), Obj('learner', []), subsampling=sub, callback_skip=skip), ValueError)
        ok = And(z3.BoolVal(True) if sub is None else as_term(sub) > 0, as_term(skip) > 0)
        prove('parameters outside their domain are rejected, and only these', ok == z3.BoolVal(err is None))
        if err is None:
            prove('a new exploration has done no iteration', t_(m.iters) == 0)
    us.append(Unit(E, 'ExplorationManager.__init__', d_init))

    def d_predict():
        log = []
        M, m, data, learner, smp, st, both, it = manager(E, log, sampler=ctx().choose(2))
        r = m.compute_user_labels_prediction()
        prove('prediction over the dataset with the model', z3.BoolVal(r[0] == 'prediction' and r[1] is learner))
    us.append(Unit(E, 'ExplorationManager.compute_user_labels_prediction', d_predict))

    def d_fitdata():
        A = E.load('aideme.active_learning.active_learner')
        for cls, want in ((A.ActiveLearner, False), (A.FactorizedActiveLearner, True)):
            seen = []
            class T(cls):
                def fit(self, X, y):
                    seen.append((X, y))
            def ts(get_partial=False):
                return ('X', 'partial' if get_partial else 'final')
            T().fit_data(Obj('data', [], training_set=ts))
            prove('%s is fitted on all labeled points with their %s labels' % (cls.__name__, 'partial' if want else 'final'),
                  z3.BoolVal(seen == [('X', 'partial' if want else 'final')]))
    us.append(Unit(E, 'ActiveLearner.fit_data', d_fitdata))
    return us


def not_(x):
    return SymBool(Not(as_term(x)))


def units_C05(E):
    us = []

    class Crit(Opq):
        def __init__(self, f, i, seen):
            self.f, self.i, self.seen = f, i, seen

        def __call__(self, m, metrics):
            self.seen.append((m, metrics))
            return wrap(self.f(self.i)) if not isinstance(self.f, list) else self.f[self.i]

    def d_converged():
        log, seen = [], []
        n = size('ncrit')
        f = ctx().func('crit', Int, Bool)
        crits = SymList.of(n, lambda i: Crit(f, i, seen))
        form = ctx().choose(3)
        given = [crits, None, Crit(f, z3.IntVal(0), seen)][form]
        M, m, data, learner, smp, st, both, it = manager(E, log, convergence_criteria=given)
        r = as_term(m.converged())
        hold = (Exists([Int], lambda i: And(i >= 0, i < n.t, f(i))), z3.BoolVal(False), f(z3.IntVal(0)))[form]
        prove('stops only when a criterion holds or everything is labeled', Implies(r, Or(hold, st['unl'].t == 0)))
        prove('stops when everything is labeled', Implies(st['unl'].t == 0, r))
        k = ctx().const('k', Int)
        if form == 0:
            assume(k >= 0, k < n.t)
            prove('stops when any one criterion holds', Implies(f(k), r))
            prove("the caller's list is unchanged", dterm(crits.n) == n.t)
        elif form == 2:
            prove('stops when the criterion holds', Implies(f(z3.IntVal(0)), r))
        for mm, metrics in seen:
            prove('criteria are asked about this exploration', z3.BoolVal(mm is m))
        cover('asked')
    us.append(Unit(E, 'ExplorationManager.converged', d_converged))

    def d_list():
        # a second manager configured with the same list
        log = []
        crits = [lambda m, x: False]
        tup = (lambda m, x: False,)
        for given in (crits, tup):
            for _ in range(2):
                manager(E, log, convergence_criteria=given)
        prove("the caller's list of criteria is unchanged", z3.BoolVal(len(crits) == 1))
    us.append(Unit(E, 'ExplorationManager.__init__ (criteria)', d_list))

    def d_iter():
        C = E.load('aideme.utils.convergence')
        form = ctx().choose(2)
        mx = symint('max') if form else float('inf')
        crit, err = raised(lambda: C.max_iter_reached(mx), ValueError)
        if form:
            prove('negative numbers of iterations are rejected', (mx.t >= 0) == z3.BoolVal(err is None))
        if err is None:
            it = symint('iters')
            assume(it.t >= 0)
            r = crit(Obj('manager', [], iters=prop(lambda: it)), {})
            prove('stops exactly when more than the given number of iterations were done',
                  as_term(r) == (it.t > mx.t if form else z3.BoolVal(False)))
    us.append(Unit(E, 'max_iter_reached', d_iter))

    def d_metric():
        C = E.load('aideme.utils.convergence')
        th, v = symreal('threshold'), symreal('value')
        crit = C.metric_reached_threshold('acc', th)
        m = Obj('manager', [])
        prove('absent metric: goes on', z3.Not(as_term(crit(m, {'other': v}))))
        prove('absent metric: goes on', z3.Not(as_term(crit(m, {}))))
        prove('stops exactly when the metric is at least the threshold', as_term(crit(m, {'acc': v, 'other': th})) == (v.t >= th.t))
    us.append(Unit(E, 'metric_reached_threshold', d_metric))

    def d_all():
        C = E.load('aideme.utils.convergence')
        u = symint('u')
        assume(u.t >= 0)
        r = C.all_points_are_labeled(Obj('manager', [], data=prop(lambda: Obj('data', [], unlabeled_size=prop(lambda: u)))), {})
        prove('stops exactly when no point is unlabeled', as_term(r) == (u.t == 0))
    us.append(Unit(E, 'all_points_are_labeled', d_all))

    class CB(Opq):
        def __init__(self, out, seen):
            self.out, self.seen = out, seen

        def __call__(self, d, al):
            self.seen.append((self, d, al))
            return self.out

    def d_callback():
        log, seen = [], []
        skip = size('skip', 1)
        stop = symbool('stop')
        outs = [{'a': symreal('a0'), 'b': symreal('b0')}, None, {}, {'b': symreal('b1'), 'c': 1}]
        k = ctx().choose(3)
        cbs = [CB(o, seen) for o in outs] if k else CB(outs[0], seen)
        given = cbs if k < 2 else tuple(cbs)
        M, m, data, learner, smp, st, both, it = manager(E, log, callback=given, callback_skip=skip,
                                                         convergence_criteria=lambda mm, x: stop)
        assume(it.t >= 1)
        r = m.get_callback_metrics()
        due = Or((it.t - 1) % skip.t == 0, stop.t, st['unl'].t == 0)
        if seen:
            prove('computed only in the first iteration, at multiples of the skip, or after convergence', due)
            if k:
                ok = [s[0] for s in seen] == list(cbs) and all(s[1] is data and s[2] is learner for s in seen)
                prove('every callback is asked, in order, about this dataset and model', z3.BoolVal(ok))
                prove('every metric is reported, later callbacks override earlier ones', And(
                    z3.BoolVal(sorted(r) == ['a', 'b', 'c']), t_(r['a']) == outs[0]['a'].t, t_(r['b']) == outs[3]['b'].t, t_(r['c']) == 1))
            else:
                prove('the single callback is asked', z3.BoolVal(len(seen) == 1 and sorted(r) == ['a', 'b']))
            cover('computed')
        else:
            prove('skipped only in between', Not(due))
            prove('nothing reported', z3.BoolVal(len(r) == 0))
            cover('skipped')
        prove('the metrics of the callbacks are not modified', And(
            z3.BoolVal(sorted(outs[0]) == ['a', 'b'] and sorted(outs[3]) == ['b', 'c'] and outs[2] == {})))
    us.append(Unit(E, 'ExplorationManager.get_callback_metrics', d_callback))

    def d_validate():
        V = E.load('aideme.utils.validation')
        f = lambda *a: None
        prove('nothing configured', z3.BoolVal(len(V.process_callback(None)) == 0 and len(V.process_callback([])) == 0))
        one = V.process_callback(f)
        prove('single function', z3.BoolVal(len(one) == 1 and one[0] is f))
        two = V.process_callback([f, len])
        prove('list of functions', z3.BoolVal(list(two) == [f, len]))
        _, err = raised(lambda: V.process_callback([f, 3]), ValueError)
        prove('anything else is rejected', z3.BoolVal(err is not None))
    us.append(Unit(E, 'process_callback', d_validate))
    return us


# ------------------------------------------------------------------------------------------------ C06
def units_C06(E):
    us = []
    import random as pyrandom

    class Mgr(Opq):
        """exploration manager by its contract (C04, C05), with a leftover metric of somebody else logged at every question"""

        def __init__(self, log, ml, oracle, pos, m):
            self._pv_log, self.ml, self.oracle, self.pos, self.m = log, ml, oracle, pos, m
            self.expl = symbool('explore')
            self._it = symint('iters')

        def clear(self):
            self._pv_log.append(('clear', np_seeds(), pyrandom.getstate()))

        def converged(self):
            self._pv_log.append(('converged',))
            self.ml.log_metric('leftover', 1)
            return symbool('stop')

        @property
        def phase(self):
            class P:
                value = 'the phase'
            return P()

        @property
        def iters(self):
            return self._it

        @property
        def is_exploration_phase(self):
            return self.expl

        @property
        def is_initial_sampling_phase(self):
            return not_(self.expl)

        def get_next_to_label(self):
            self._pv_log.append(('next',))
            e, p = self.oracle.index.reader(), self.pos
            class Batch(Opq):
                index = Arr.make((self.m,), 'int', lambda j: e(p(j)))
                data = None
            return Batch()

        def update(self, ls):
            self._pv_log.append(('update', ls))

        def get_callback_metrics(self):
            self._pv_log.append(('callbacks',))
            return {'cb': 17}

    def np_seeds():
        return list(ctx().memo.get('events', []))

    def d_run():
        X, ml = E.load('aideme.explore.explore', 'aideme.utils.metric_logger')
        if not hasattr(X.PoolBasedExploration, '_run'):
            ctx().unsupported('PoolBasedExploration no longer has a method _run')
        log = []
        ctx().memo['events'] = []
        oracle, n, q, y, p, e = labeled_set(E, kind='int')
        m = size('m', 1)
        pos = ctx().func('pos', Int, Int)
        assume(forall(0, m.t, lambda j: And(pos(j) >= 0, pos(j) < n.t), lambda j: [pos(j)]))
        mgr = Mgr(log, ml, oracle, pos, m)
        noise = ctx().choose(2) == 1
        asked, noisy = [], None
        def injector(it, ls):
            nonlocal noisy
            L = E.load('aideme.explore.labeledset')
            asked.append((it, ls))
            noisy = L.LabeledSet(vec('ny', m, 'int'), mat('np', m, q, 'int'), ls.index)
            return noisy
        explorer = X.PoolBasedExploration(noise_injector=injector if noise else None)
        seed = [12, None][ctx().choose(2)]
        ml.log_metric('leftover from before', 1)
        gen = explorer._run(mgr, oracle, seed)
        try:
            out = next(gen)
        except StopIteration:
            names = [x[0] for x in log]
            prove('a run ends only when the exploration has converged', z3.BoolVal(names[-1] == 'converged'))
            prove('nothing stays logged after a run', z3.BoolVal(len(ml.get_metrics()) == 0))
            cover('run over')
            return
        names = [x[0] for x in log]
        prove('each run starts from a reset state with its own seed', z3.BoolVal(
            names[0] == 'clear' and names.count('clear') == 1 and log[0][1] == [('np.seed', seed)] and
            (seed is None or log[0][2] == pyrandom.Random(seed).getstate())))
        prove('convergence is checked, one batch is labeled and the model updated, in this order', z3.BoolVal(
            names[names.index('converged'):] == ['converged', 'next', 'update', 'callbacks']))
        expl = mgr.expl.t
        used = log[names.index('update')][1]
        prove('noise is injected exactly in the exploration phase when configured', And(z3.BoolVal(noise), expl) == z3.BoolVal(len(asked) == 1))
        truth = asked[0][1] if asked else used
        ty, tp, ti = truth.labels.reader(), truth.partial.reader(), truth.index.reader()
        prove("the labels are the oracle's own labels of the proposed points", And(
            dterm(truth.labels.shape[0]) == m.t, dterm(truth.partial.shape[0]) == m.t, dterm(truth.partial.shape[1]) == q.t,
            forall(0, m.t, lambda j: And(ty(j) == y(pos(j)), ti(j) == e(pos(j)))),
            forall2(m.t, q.t, lambda i, j: tp(i, j) == p(pos(i), j))))
        keys = {'phase', 'labels', 'partial_labels', 'labeled_indexes', 'cb', 'iter_time'}
        if asked:
            prove('the model gets the noisy labels', z3.BoolVal(used is noisy))
            prove('the injector gets the iteration number', t_(asked[0][0]) == mgr._it.t)
            keys |= {'noisy_labels', 'noisy_partial_labels'}
            cover('noisy')
        prove('exactly the metrics of this iteration are reported', z3.BoolVal(set(out) - {'fit_time', 'get_next_time', 'callback_time'} == keys))
        prove('the labels and identifiers are reported', And(
            list_is(out['labels'], m.t, lambda j: y(pos(j))), list_is(out['labeled_indexes'], m.t, lambda j: e(pos(j)))))
        prove('the partial labels are reported', rows_are(out['partial_labels'], m.t, q.t, lambda i, j: p(pos(i), j)))
        if asked:
            ny, npp = noisy.labels.reader(), noisy.partial.reader()
            prove('the noisy labels are reported', list_is(out['noisy_labels'], m.t, ny))
            prove('the noisy partial labels are reported', rows_are(out['noisy_partial_labels'], m.t, q.t, npp))
        prove('phase and callback metrics are reported', z3.BoolVal(out['phase'] == 'the phase' and out['cb'] == 17))
        a, b, c_ = oracle.labels.reader(), oracle.partial.reader(), oracle.index.reader()
        prove('the oracle is not modified', And(forall(0, n.t, lambda j: And(a(j) == y(j), c_(j) == e(j))),
                                                forall2(n.t, q.t, lambda i, j: b(i, j) == p(i, j))))
        kept = dict(out)
        cover('iteration')
        ml.log_metric('somebody else', 2)
        try:
            next(gen)
        except StopIteration:
            pass
    us.append(Unit(E, 'PoolBasedExploration._run', d_run, {'PoolBasedExploration._run:while#1': LoopSpec()}))

    def d_kept():
        """metrics handed out are not changed by the following iteration (two iterations, executed natively)"""
        X, ml = E.load('aideme.explore.explore', 'aideme.utils.metric_logger')
        log = []
        ctx().memo['events'] = []
        oracle, n, q, y, p, e = labeled_set(E, kind='int')
        m = size('m', 1)
        pos = ctx().func('pos', Int, Int)
        assume(forall(0, m.t, lambda j: And(pos(j) >= 0, pos(j) < n.t), lambda j: [pos(j)]))
        mgr = Mgr(log, ml, oracle, pos, m)
        stops = [False, False, True]
        mgr.__dict__['converged'] = lambda: stops.pop(0)
        gen = X.PoolBasedExploration()._run(mgr, oracle, 3)
        one = next(gen)
        kept = dict(one)
        two = next(gen)
        rest = list(gen)
        prove('metrics already handed out stay as they were', z3.BoolVal(
            rest == [] and one is not two and sorted(one) == sorted(kept) and all(one[k] is kept[k] for k in kept)))
    us.append(Unit(E, 'PoolBasedExploration._run (two iterations)', d_kept))

    def d_start():
        X = E.load('aideme.explore.explore')
        if not hasattr(X.PoolBasedExploration, '_run'):
            ctx().unsupported('PoolBasedExploration no longer has a method _run')
        n, w = size('n', 1), size('w', 1)
        data = mat('X', n, w)
        ls, _, q, y, p, e = labeled_set(E, n=n)
        d0, copy = data.reader(), ctx().choose(2) == 1
        made = []
        class DS(Opq):
            # contract of the dataset's constructor (C01): works on the given arrays, permuting them in place, unless told to copy
            def __init__(self, data, index=None, copy=True):
                self.pv_args = (data, index, copy)
                cp = bool(copy) if not isinstance(copy, bool) else copy
                if not cp:
                    data.buf.havoc()
                    if index is not None:
                        index.buf.havoc()

            def clear(self):
                pass
        swap(X, 'PartitionedDataset', DS)
        class T(X.PoolBasedExploration):
            def _run(self, manager, labeled_set, seed):
                if not made:
                    made.append((manager, labeled_set))
                elif made[0][0] is not manager or made[0][1] is not labeled_set:
                    made.append((manager, labeled_set))
                return SymList([-1 if seed is None else seed])
        form = ctx().choose(4)
        rep = symint('repeat')
        assume(rep.t >= 0)
        k = size('nseeds')
        sd = ctx().func('seed', Int, Int)
        seeds = [None, 5, SymList.of(k, lambda i: wrap(sd(i))), [3, None]][form]
        nseeds = [rep.t, z3.IntVal(1), k.t, z3.IntVal(2)][form]
        gen = ctx().choose(2) == 1
        learner = Obj('learner', [])
        ex = T()
        runs, err = raised(lambda: ex.run(data, ls, learner, repeat=rep, seeds=seeds, copy=copy, return_generator=gen), ValueError)
        if err is not None:
            prove('rejected only for a wrong number of seeds', rep.t != nseeds)
            return
        prove('a mismatched number of seeds is rejected', rep.t == nseeds)
        if not hasattr(runs, '__pvlen__') and not isinstance(runs, (list, tuple)) and not isinstance(runs, SymList) and \
                hasattr(runs, '__next__'):
            runs = list(runs)
        cnt, el = as_seq(runs)
        prove('the number of runs is the requested one', dterm(cnt) == rep.t)
        j = ctx().const('j', Int)
        assume(j >= 0, j < dterm(cnt))
        if isinstance(cnt, int):
            got = [as_seq(el(z3.IntVal(i)))[1](z3.IntVal(0)) for i in range(cnt)]
            want = [[5], [3, -1]][0 if form == 1 else 1] if form in (1, 3) else None
            prove('run i uses seed i', z3.BoolVal(want is None or got == want))
        else:
            g = as_seq(el(j))[1](z3.IntVal(0))
            prove('run i uses seed i', t_(g) == (z3.IntVal(-1) if form == 0 else sd(j) if form == 2 else t_(g)))
        prove('all runs use one manager and the given labels', z3.BoolVal(len(made) <= 1 and (not made or made[0][1] is ls)))
        if made:
            mgr = made[0][0]
            prove('the manager works on the given learner and a new dataset', z3.BoolVal(
                mgr.active_learner is learner and isinstance(mgr.data, DS) and len(mgr.data.pv_args) == 3))
            ix = mgr.data.pv_args[1]
            ir = ix.reader()
            prove('the dataset has the identifiers of the labels', And(
                dterm(ix.shape[0]) == n.t, z3.BoolVal(not copy) if not copy else forall(0, n.t, lambda i: ir(i) == e(i))))
            cover('started')
        d1, e1, y1, p1 = data.reader(), ls.index.reader(), ls.labels.reader(), ls.partial.reader()
        prove('the labels and identifiers are not modified', And(
            forall(0, n.t, lambda i: And(e1(i) == e(i), y1(i) == y(i))), forall2(n.t, q.t, lambda i, j: p1(i, j) == p(i, j))))
        if copy:
            prove('with copying the data are not modified', forall2(n.t, w.t, lambda i, j: d1(i, j) == d0(i, j)))
    us.append(Unit(E, 'PoolBasedExploration.run', d_start))

    def d_options():
        X = E.load('aideme.explore.explore')
        sub, skip = None if ctx().choose(2) else symint('subsampling'), symint('callback_skip')
        ex, err = raised(lambda: X.PoolBasedExploration(subsampling=sub, callback_skip=skip), ValueError)
        bad = Or(z3.BoolVal(False) if sub is None else sub.t <= 0, skip.t <= 0)
        prove('non-positive sample sizes and callback intervals are rejected, others not', bad == z3.BoolVal(err is not None))
        cover('rejected' if err is not None else 'accepted')
    us.append(Unit(E, 'PoolBasedExploration.__init__', d_options))

    def d_asdict():
        ls, n, q, y, p, e = labeled_set(E)
        d, nd = ls.asdict(), ls.asdict(noisy=True)
        prove('names of the reported entries', z3.BoolVal(
            set(d) == {'labels', 'partial_labels', 'labeled_indexes'} and set(nd) == {'noisy_labels', 'noisy_partial_labels'}))
        prove('contents', And(list_is(d['labels'], n.t, y), list_is(d['labeled_indexes'], n.t, e), list_is(nd['noisy_labels'], n.t, y)))
        prove('partial labels', And(rows_are(d['partial_labels'], n.t, q.t, p), rows_are(nd['noisy_partial_labels'], n.t, q.t, p)))
    us.append(Unit(E, 'LabeledSet.asdict', d_asdict))
    return us


# ------------------------------------------------------------------------------------------------ C07
def units_C07(E):
    from .partition import PState
    us = []

    def pick_post(S, got, what, sample=None):
        """the points of `got` are unlabeled points with their own data"""
        m = dterm(got.index.shape[0])
        gi, gd = got.index.reader(), got.data.reader()
        prove('%s: unlabeled points only, with their own data' % what, And(
            dterm(got.data.shape[0]) == m,
            forall(0, m, lambda j: And(S.dom0(gi(j)), S.row0(gi(j)) >= S.inf0.t)),
            forall2(m, S.w.t, lambda i, j: gd(i, j) == S.D(gi(i), j))))
        return m, gi, gd

    def rank_of(log):
        """an arbitrary rank function of the points: rank(X)[i] = R(row of X at i); rows identified through column 0"""
        f = ctx().func('rankval', Int, Real)
        def rank(X):
            xs = X.reader()
            n = X.shape[0]
            a = vec('rank', n)
            log.append((X, a))
            return a
        return rank

    def d_next():
        A = E.load('aideme.active_learning.active_learner')
        S = PState(E)
        assume(S.inf0.t < S.n.t)
        log = []
        rank = rank_of(log)
        class T(A.ActiveLearner):
            def rank(self, X):
                return rank(X)
        sub = size('sub', 1) if ctx().choose(2) else None
        got = T().next_points_to_label(S.o, sub)
        m, gi, gd = pick_post(S, got, 'proposal')
        prove('one point is proposed', m == 1)
        prove('the rank is asked once', z3.BoolVal(len(log) == 1))
        X, r = log[0]
        xs, rr, k = X.reader(), r.reader(), dterm(X.shape[0])
        unl = S.n.t - S.inf0.t
        if sub is None:
            prove('all unlabeled points are ranked', k == unl)
        else:
            prove('the sample has the requested size, or all points when fewer remain', k == If(sub.t >= unl, unl, sub.t))
        z0 = z3.IntVal(0)
        prove('the proposed point is one of those ranked and minimises the rank', Exists([Int], lambda i: And(
            i >= 0, i < k, Forall([Int], lambda j: Implies(And(j >= 0, j < k), rr(i) <= rr(j))),
            Forall([Int], lambda c_: Implies(And(c_ >= 0, c_ < S.w.t), gd(z0, c_) == xs(i, c_))))))
        cover('proposed')
    us.append(Unit(E, 'ActiveLearner.next_points_to_label', d_next))

    def d_random():
        R = E.load('aideme.active_learning.random')
        S = PState(E)
        b = symint('batch')
        rs, err = raised(lambda: R.RandomSampler(Obj('clf', []), b), ValueError)
        prove('batch sizes below one are rejected', (b.t >= 1) == z3.BoolVal(err is None))
        if err is not None:
            return
        sub = size('sub', 1) if ctx().choose(2) else None
        got = rs.next_points_to_label(S.o, sub)
        m, gi, gd = pick_post(S, got, 'random proposal')
        unl = S.n.t - S.inf0.t
        avail = unl if sub is None else If(sub.t >= unl, unl, sub.t)
        prove('the requested number of points, or all that remain', m == If(b.t >= avail, avail, b.t))
        prove('distinct points', Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < j, j < m), gi(i) != gi(j))))
    us.append(Unit(E, 'RandomSampler.next_points_to_label', d_random))

    def d_sample():
        S = PState(E)
        k = [None, symint('k')][ctx().choose(2)]
        if k is not None:
            assume(k.t >= 0)
        ds = S.ds
        ix, dt = ds.index.reader(), ds.data.reader()
        got = ds.sample(k)
        m = dterm(got.index.shape[0])
        gi, gd = got.index.reader(), got.data.reader()
        prove('size of the sample', m == (S.n.t if k is None else If(k.t >= S.n.t, S.n.t, k.t)))
        prove('points of the dataset with their own data', And(
            forall(0, m, lambda j: S.dom0(gi(j))), dterm(got.data.shape[0]) == m,
            forall2(m, S.w.t, lambda i, j: gd(i, j) == S.D(gi(i), j))))
        prove('distinct points', Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < j, j < m), gi(i) != gi(j))))
        a, b = ds.index.reader(), ds.data.reader()
        prove('the dataset is not modified', And(forall(0, S.n.t, lambda i: a(i) == ix(i)),
                                                 forall2(S.n.t, S.w.t, lambda i, j: b(i, j) == dt(i, j))))
        X = S.o.sample(k)
        prove('dataset sample: size', dterm(X.shape[0]) == (S.n.t if k is None else If(k.t >= S.n.t, S.n.t, k.t)))
    us.append(Unit(E, 'IndexedDataset.sample', d_sample))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
