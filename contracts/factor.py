"""Contracts of the two-phase factorization learner (C25) and of the changes of structure of factorized classifiers (C27)."""
from pyvc import funcs

from .common import *
from .explore import raised
from .sampler import method, restub, restub1
from .small import HALF

FUNCTIONS = {'C25': ['SwapLearner.*', 'FactorizationManager.*', 'SimplifiedSwapLearner.*', 'FLMUncertaintySampler.*']}
ASSUMPTIONS = {'C25': ['the first model, the factorized models, the optimizers and the dataset by contract: arbitrary answers, every call recorded',
                       'a one-to-one map of 0..n-1 into itself reaches every number of that range (pigeonhole rule), and 0..n-1 has n elements',
                       'the options of SimplifiedSwapLearner are executed for one value of each numeric option (finite, concrete)',
                       'set_user_fact is executed on concrete lists of groups']}
AL = 'aideme.active_learning.factorization.active_learning'
LEARN = 'aideme.active_learning.factorization.learn'
LIN = 'aideme.active_learning.factorization.linear'


class Grp:
    """the i-th group of a factorization"""
    __pvobject__ = True

    def __init__(self, f, i):
        self._pv_f, self._pv_i = f, i

    def pv_subst(self, pairs):
        return Grp(self._pv_f, z3.simplify(z3.substitute(self._pv_i, *pairs)))


class Model(Opq):
    """any component: every call is recorded, answers are arbitrary"""

    def __init__(self, name, log):
        self._pv_name, self._pv_log = name, log

    def _pv_call(self, kind, *a, **k):
        self._pv_log.append((self._pv_name, kind, a, k))

    def fit_data(self, data):
        self._pv_call('fit_data', data)

    def clear(self):
        self._pv_call('clear')

    def _ans(self, kind, X):
        X = toarr(X)
        r = vec(kind, X.shape[0])
        self._pv_call(kind, X, r)
        return r

    def predict(self, X):
        return self._ans('predict', X)

    def predict_proba(self, X):
        return self._ans('predict_proba', X)

    def rank(self, X):
        return self._ans('rank', X)

    def fit(self, *a, **k):
        self._pv_call('fit', *a, **k)

    def set_factorization_structure(self, *a, **k):
        self._pv_call('set_factorization_structure', *a, **k)


class Linear(Model):
    """a linear factorized model; its weights are tokens"""

    def __init__(self, name, log):
        Model.__init__(self, name, log)
        self._pv_v = 0
        self._weights, self._bias = ('w', name, 0), ('b', name, 0)
        self.optimizer = Opq()
        self.optimizer._max_iter = None

    def fit(self, *a, **k):
        self._pv_call('fit', *a, at=(self._weights, self._bias, self.optimizer._max_iter), **k)
        self._pv_v += 1
        self._weights, self._bias = ('w', self._pv_name, self._pv_v), ('b', self._pv_name, self._pv_v)

    weights = property(lambda s: s._weights)
    bias = property(lambda s: s._bias)
    weight_matrix = property(lambda s: ('matrix', s._weights, s._bias))
    num_subspaces = property(lambda s: ('number', s._weights))
    copy = None


class Data(Opq):
    def __init__(self, log):
        self._pv_log = log
        self.data = Opq()
        self.got = []

    def sample(self, n=None, *a, **k):
        X = mat('S', size('n'), size('d', 1))
        self._pv_log.append(('data', 'sample', (n, X), {}))
        return X

    def training_set(self, *a, **k):
        n = size('n')
        X, y = mat('X', n, size('d', 1)), vec('y', n)
        self._pv_log.append(('data', 'training_set', (X, y), {}))
        return X, y

    def set_partial_labels(self, Y):
        self._pv_log.append(('data', 'set_partial_labels', (Y,), {}))


class Manager(Opq):
    """FactorizationManager by contract (verified below)"""

    def __init__(self, log):
        self._pv_log = log
        n = self._pv_n = size('groups')
        self.update_every = size('every', 1)
        self.fact_reindexing = None

    def compute_factorization(self, data, model):
        n = self._pv_n
        F = SymList.of(n, lambda i: Grp(self, as_term(i)))
        self._pv_F, self._pv_Y = F, mat('YP', size('lab'), n)
        self._pv_log.append(('manager', 'compute_factorization', (data, model), {}))
        return F, self._pv_Y

    def update(self, F):
        self._pv_log.append(('manager', 'update', (F,), {}))

    def can_switch_to_full_factorization(self, F):
        c = ctx()
        self._pv_log.append(('manager', 'can_switch', (F,), {}))
        self._pv_ok = symbool('ok')
        if bool(self._pv_ok):
            f, n = c.func('index', Int, Int), self._pv_n.t
            assume(forall(0, n, lambda j: And(f(j) >= 0, f(j) < n), lambda j: [f(j)]))
            self._pv_idx = f
            self.fact_reindexing = SymList.of(self._pv_n, lambda j: wrap(f(as_term(j))))
            return True
        return False

    def clear(self):
        self._pv_log.append(('manager', 'clear', (), {}))

    def set_user_fact(self, F):
        self._pv_log.append(('manager', 'set_user_fact', (F,), {}))


class NoLog(Opq):
    def __init__(self):
        self._pv_got = []

    def log_metric(self, *a, **k):
        self._pv_got.append((a, k))

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return lambda *a, **kw: None


def kinds(log, who=None):
    return [(w, k) for w, k, _, _ in log if who is None or w == who]


def calls(log, who, kind):
    return [(a, k) for w, q, a, k in log if (w, q) == (who, kind)]


def arg(a, k, i, name, default=None):
    return a[i] if len(a) > i else k.get(name, default)


def units_C25(E):
    us = []
    P_IT, P_FULL = ('SwapLearner', '_SwapLearner__it'), None

    def fresh(E, same=False, fact=True, **kw):
        c = ctx()
        M = E.load(AL)
        swap(M, 'metric_logger', NoLog())
        log = []
        al, sw = Model('first', log), Linear('swap', log)
        rf = sw if same else Linear('refine', log)
        man = Manager(log) if fact else None
        if fact:
            fm = Model('fact', log)

            def mk(*a, **k):
                log.append(('new manager', '', a, k))
                return man
            swap(M, 'FactorizationManager', mk)
        else:
            fm = None
        opts = dict(num_subspaces=size('subspaces', 1), retries=size('retries', 1), swap_iter=size('swap_iter', 1), train_sample_size=size('sample', 1))
        opts.update(kw)
        o = M.SwapLearner(al, sw, None if same else rf, fact_model=fm, **opts)
        return M, o, log, al, sw, rf, fm, man, opts

    def phase(o):
        return priv(o, 'SwapLearner', 'it'), priv(o, 'SwapLearner', 'is_full_fact_phase')

    def arbitrary_state(o, fact, swap_iter):
        """any state of the history: full only after the switch"""
        priv(o, 'SwapLearner', 'it'), priv(o, 'SwapLearner', 'is_full_fact_phase')
        it = size('it')
        full = bool(symbool('full')) if fact else False
        if full:
            assume(it.t > t_(swap_iter))
        setpriv(o, 'SwapLearner', 'it', it)
        setpriv(o, 'SwapLearner', 'is_full_fact_phase', full)
        return it, full

    def d_init():
        c = ctx()
        fact = c.choose(2) == 1
        uf = ('user groups',)
        steps = dict(compute_fact_every=size('ce', 1), fact_repeat=size('fr', 1), fact_max_iter=size('fm', 1)) if fact else {}
        M, o, log, al, sw, rf, fm, man, opts = fresh(E, fact=fact, user_fact=uf, **steps)
        it, full = phase(o)
        prove('no iteration at first', t_(it) == 0)
        prove('the first phase at first', z3.BoolVal(full is False))
        prove('reported as the first phase', t_(o.is_active_learning_phase))
        if fact:
            k = log[0][3]
            prove('the user groups are passed on', z3.BoolVal(k.get('user_fact') is uf))
            prove('the schedule is passed on', And(t_(k['compute_every']) == steps['compute_fact_every'].t, t_(k['stable_count']) == steps['fact_repeat'].t))
            o.set_user_factorization(('others',))
            prove('the user groups can be replaced', z3.BoolVal(calls(log, 'manager', 'set_user_fact')[0][0][0] == ('others',)))
        else:
            o.set_user_factorization(('others',))
        prove('building a learner fits nothing', z3.BoolVal(not [x for x in kinds(log) if x[1] in ('fit', 'fit_data')]))
    us.append(Unit(E, 'SwapLearner.__init__', d_init))

    def d_bad():
        c = ctx()
        k = c.choose(5)
        M = E.load(AL)
        v = symint('v')
        nm = ('swap_iter', 'num_subspaces', 'retries', 'train_sample_size')[k] if k < 4 else 'prune_threshold'
        if k == 4:
            v = symreal('v')
        _, err = raised(lambda: M.SwapLearner(Model('a', []), Linear('s', []), **{nm: v}), ValueError)
        ok = And(v.t >= 0, v.t <= 1) if k == 4 else v.t > 0
        prove('exactly parameters out of range are rejected', z3.BoolVal(err is None) == ok)
    us.append(Unit(E, 'SwapLearner.__init__: parameters', d_bad))

    def d_badman():
        M = E.load(AL)
        k = ctx().choose(6)
        nm = ('compute_every', 'stable_count', 'max_iter', 'step_size', 'l1_penalty', 'l2_sqrt_penalty')[k]
        v = symint('v') if k < 3 else symreal('v')
        _, err = raised(lambda: M.FactorizationManager([[0]], **{nm: v}), ValueError)
        prove('exactly parameters out of range are rejected', z3.BoolVal(err is None) == (v.t > 0))
    us.append(Unit(E, 'FactorizationManager.__init__: parameters', d_badman))

    def swapped_factorize(M, log):
        """compute_relevant_attributes and compute_factorization: for the log only"""
        rel = mat('rel', size('k'), size('d', 1), 'bool')
        def cra(m):
            log.append(('learn', 'relevant', (m,), {}))
            return rel
        swap(M, 'compute_relevant_attributes', cra)
        swap(M, 'compute_factorization', lambda r: ('fact of', r))

    def d_fit():
        c = ctx()
        fact = c.choose(2) == 1
        same = c.choose(2) == 1
        onpred, prune, adapt = [c.choose(2) == 1 for _ in range(3)]
        ad = c.func('budget', Int, Int)
        asked = []

        def adapter(i):
            asked.append(i)
            return wrap(ad(t_(i)))
        thr = symreal('thr')
        assume(thr.t >= 0, thr.t <= 1)
        M, o, log, al, sw, rf, fm, man, opts = fresh(E, same=same, fact=fact, train_on_prediction=onpred, prune=prune, prune_threshold=thr,
                                                      max_iter_adapter=adapter if adapt else None)
        del log[:]
        swapped_factorize(M, log)
        pruned = []

        def pr(X, learner, *a, **k):
            q = Linear('pruned', log)
            pruned.append((X, learner, arg(a, k, 0, 'threshold')))
            log.append(('learn', 'prune', (q,), {}))
            return q
        swap(M, 'prune_irrelevant_subspaces', pr)
        si = opts['swap_iter']
        it, full = arbitrary_state(o, fact, si)
        data = Data(log)
        mat0 = rf.weight_matrix
        num0 = rf.num_subspaces
        o.fit_data(data)
        it2, full2 = phase(o)
        prove('one more iteration', t_(it2) == it.t + 1)
        prove('never back to the linear phase', z3.BoolVal(not (full and not full2)))
        prove('the full phase needs the configured number of iterations', Implies(z3.BoolVal(bool(full2)), it.t + 1 > si.t))
        fits = [x for x in kinds(log) if x[1] in ('fit', 'fit_data')]
        if bool(it2 <= si):
            prove('only the first model is trained before the switch', z3.BoolVal(fits == [('first', 'fit_data')] and calls(log, 'first', 'fit_data')[0][0][0] is data))
            prove('nothing else happens before the switch', z3.BoolVal(len(log) == 1))
            prove('still the first phase', t_(o.is_active_learning_phase))
            prove('no linear model yet', z3.BoolVal(o.linear_model is None))
            return cover('before')
        prove('not the first phase', Not(t_(o.is_active_learning_phase)))
        prove('the first model is no longer trained', z3.BoolVal(('first', 'fit_data') not in fits))
        if full:
            prove('only the second model is trained in the full phase', z3.BoolVal(kinds(log) == [('fact', 'fit_data')] and calls(log, 'fact', 'fit_data')[0][0][0] is data))
            return cover('full')
        first = bool(it2 == si + 1)
        if first:
            prove('the switch trains the factorized model exactly once', z3.BoolVal([x for x in fits if x[1] == 'fit'] == [('swap', 'fit')]))
            (a, k), = calls(log, 'swap', 'fit')
            if onpred:
                (n, S), _ = calls(log, 'data', 'sample')[0]
                (S2, p), _ = calls(log, 'first', 'predict')[0]
                prove('trained on a sample of the configured size', t_(n) == opts['train_sample_size'].t)
                prove('labeled by the first model', And(same_array(toarr(arg(a, k, 0, 'X')), S), same_array(S2, S), same_array(toarr(arg(a, k, 1, 'y')), p)))
            else:
                (X, y), _ = calls(log, 'data', 'training_set')[0]
                prove('trained on the labeled points', And(same_array(toarr(arg(a, k, 0, 'X')), X), same_array(toarr(arg(a, k, 1, 'y')), y)))
            prove('with the configured number of subspaces and retries', And(t_(arg(a, k, 2, 'factorization')) == opts['num_subspaces'].t,
                                                                          t_(arg(a, k, 3, 'retries')) == opts['retries'].t))
            prove('from scratch', z3.BoolVal(arg(a, k, 4, 'x0') is None))
            model = rf
            prove('the refining model starts from the weights found', z3.BoolVal(rf._weights == ('w', 'swap', 1) and rf._bias == ('b', 'swap', 1)))
        else:
            me = 'swap' if same else 'refine'
            prove('later iterations refine the model exactly once', z3.BoolVal([x for x in fits if x[1] == 'fit'] == [(me, 'fit')]))
            (a, k), = calls(log, me, 'fit')
            (X, y), _ = calls(log, 'data', 'training_set')[0]
            prove('refined on the labeled points', And(same_array(toarr(arg(a, k, 0, 'X')), X), same_array(toarr(arg(a, k, 1, 'y')), y)))
            prove('with its own number of subspaces, starting from its weights', z3.BoolVal(
                arg(a, k, 2, 'factorization') == num0 and arg(a, k, 4, 'x0') == mat0))
            if adapt:
                prove('the budget follows the number of refinements', And(z3.BoolVal(len(asked) == 1), t_(asked[0]) == it.t - si.t,
                                                                        t_(k['at'][2]) == ad(it.t - si.t)))
            else:
                prove('the budget is left alone', z3.BoolVal(k['at'][2] is None))
            prove('pruned exactly when configured', z3.BoolVal(len(pruned) == (1 if prune else 0)))
            model = rf
            if prune:
                prove('the refined model is pruned on the whole dataset', And(z3.BoolVal(pruned[0][0] is data.data and pruned[0][1] is rf), t_(pruned[0][2]) == thr.t))
                model = calls(log, 'learn', 'prune')[0][0][0]
        prove('the current model is the one answering', z3.BoolVal(o.linear_model is model))
        due = z3.BoolVal(fact)
        if fact:
            due = (it.t - si.t) % man.update_every.t == 0
        got = calls(log, 'manager', 'compute_factorization')
        prove('the structure is learned exactly when due', z3.BoolVal(len(got) == 1) == due)
        if not got:
            prove('no switch without a structure', z3.BoolVal(not full2 and ('fact', 'fit_data') not in fits))
            return cover('refined')
        prove('learned from the current model', z3.BoolVal(got[0][0][0] is data and got[0][0][1] is model))
        prove('the stability count sees every structure', z3.BoolVal([a[0] is man._pv_F for a, k in calls(log, 'manager', 'update')] == [True]))
        order = [k for w, k in kinds(log) if w == 'manager']
        prove('counted before the decision', z3.BoolVal(order == ['compute_factorization', 'update', 'can_switch']))
        if not bool(man._pv_ok):
            prove('no switch unless allowed', z3.BoolVal(not full2 and ('fact', 'fit_data') not in fits and not calls(log, 'data', 'set_partial_labels')))
            return cover('kept')
        prove('switched when allowed', z3.BoolVal(full2 is True))
        tail = kinds(log)[-3:]
        prove('labels, structure, then training', z3.BoolVal(sorted(tail[:2]) == [('data', 'set_partial_labels'), ('fact', 'set_factorization_structure')]
                                                           and tail[2] == ('fact', 'fit_data') and fits.count(('fact', 'fit_data')) == 1))
        (Y,), _ = calls(log, 'data', 'set_partial_labels')[0]
        Y, R, yr = toarr(Y), toarr(Y).reader(), man._pv_Y.reader()
        n, f = man._pv_n.t, man._pv_idx
        prove('one partial label per group', And(dterm(Y.shape[0]) == dterm(man._pv_Y.shape[0]), dterm(Y.shape[1]) == n))
        prove('partial labels follow the order of the user groups', forall2(dterm(Y.shape[0]), n, lambda r, j: R(r, j) == yr(r, f(j))))
        a, k = calls(log, 'fact', 'set_factorization_structure')[0]
        G, m = arg(a, k, 99, 'partition'), arg(a, k, 99, 'mode')
        prove('numerical subspaces', z3.BoolVal(m == 'numerical'))
        j = c.const('j', Int)
        assume(j >= 0, j < n)
        gn, ge = as_seq(G)
        prove('as many groups', dterm(gn) == n)
        g = ge(j)
        prove('groups follow the order of the user groups', And(z3.BoolVal(isinstance(g, Grp) and g._pv_f is man), g._pv_i == f(j)))
        cover('switched')
    us.append(Unit(E, 'SwapLearner.fit_data', d_fit, max_paths=1200))

    def d_answers():
        c = ctx()
        fact = c.choose(2) == 1
        M, o, log, al, sw, rf, fm, man, opts = fresh(E, fact=fact)
        it, full = arbitrary_state(o, fact, opts['swap_iter'])
        del log[:]
        X = mat('X', size('n'), size('d', 1))
        kind = ('predict', 'predict_proba', 'rank')[c.choose(3)]
        r = toarr(getattr(o, kind)(X))
        prove('one question', z3.BoolVal(len(log) == 1))
        w, q, (X2, ans), _ = log[0]
        who = 'first' if bool(it <= opts['swap_iter']) else 'fact' if full else 'refine'
        prove('the model of the phase answers', z3.BoolVal(w == who))
        prove('about the points asked', same_array(X2, X))
        if kind == 'rank' and who == 'refine':
            rr, p = r.reader(), ans.reader()
            prove('probabilities close to one half first', And(z3.BoolVal(q == 'predict_proba'), dterm(r.shape[0]) == dterm(X.shape[0]),
                  forall(0, dterm(X.shape[0]), lambda i: rr(i) == If(p(i) >= HALF, p(i) - HALF, HALF - p(i)))))
        else:
            prove('the question asked', z3.BoolVal(q == kind))
            prove('the answer given', same_array(r, ans))
        it2, full2 = phase(o)
        prove('asking changes no phase', And(t_(it2) == it.t, z3.BoolVal(bool(full2) == full)))
        cover('answered')
    us.append(Unit(E, 'SwapLearner: answers', d_answers))

    def d_clear():
        c = ctx()
        fact = c.choose(2) == 1
        M, o, log, al, sw, rf, fm, man, opts = fresh(E, fact=fact)
        arbitrary_state(o, fact, opts['swap_iter'])
        del log[:]
        o.clear()
        it, full = phase(o)
        prove('back to the first phase', And(t_(it) == 0, z3.BoolVal(not full), t_(o.is_active_learning_phase)))
        want = {'first', 'swap', 'refine'} | ({'fact', 'manager'} if fact else set())
        prove('every component is reset', z3.BoolVal({w for w, k in kinds(log) if k == 'clear'} == want and all(k == 'clear' for _, k in kinds(log))))
    us.append(Unit(E, 'SwapLearner.clear', d_clear))

    # ---------------------------------------------------------------- when the structure is stable and compatible
    class Token(Opq):
        def __init__(self):
            self._pv_t = ctx().const('tok', Int)

        def __eq__(self, o):
            return wrap(self._pv_t == o._pv_t) if isinstance(o, Token) else False

        def __ne__(self, o):
            return wrap(self._pv_t != o._pv_t) if isinstance(o, Token) else True
        __hash__ = None

    def manager(**kw):
        M = E.load(AL)
        opts = dict(compute_every=size('ce', 1), stable_count=size('sc', 1), max_iter=size('mi', 1))
        opts.update(kw)
        return M, M.FactorizationManager(None, **opts), opts

    def d_update():
        c = ctx()
        M, o, opts = manager()
        prove('no structure at first', And(t_(priv(o, 'FactorizationManager', 'fact_count')) == 0, z3.BoolVal(priv(o, 'FactorizationManager', 'fact_prev') is None)))
        prove('the schedule', t_(o.update_every) == opts['compute_every'].t)
        n = size('count')
        prev = None if c.choose(2) else Token()
        setpriv(o, 'FactorizationManager', 'fact_count', n)
        setpriv(o, 'FactorizationManager', 'fact_prev', prev)
        assume(n.t == 0) if prev is None else None
        if c.choose(2):
            o.fact_reindexing = Opq()
            o.clear()
            prove('reset', And(t_(priv(o, 'FactorizationManager', 'fact_count')) == 0, z3.BoolVal(
                priv(o, 'FactorizationManager', 'fact_prev') is None and o.fact_reindexing is None)))
            return
        new = Token()
        o.update(new)
        n2, p2 = priv(o, 'FactorizationManager', 'fact_count'), priv(o, 'FactorizationManager', 'fact_prev')
        prove('the last structure is kept', p2._pv_t == new._pv_t)
        if prev is None:
            prove('the first structure repeats nothing', t_(n2) == 0)
        else:
            prove('consecutive repetitions are counted', t_(n2) == If(prev._pv_t == new._pv_t, n.t + 1, z3.IntVal(0)))
        asked = []
        ok = symbool('ok')

        def comp(f):
            asked.append(f)
            return ok
        restub(o, 'is_fact_compatible', comp)
        r = o.can_switch_to_full_factorization(new)
        prove('switch exactly when stable and compatible', t_(r) == And(t_(n2) >= opts['stable_count'].t, ok.t))
        prove('the structure in question', z3.BoolVal(all(f is new for f in asked)))
    us.append(Unit(E, 'FactorizationManager.update', d_update))

    cell = {}

    def groups(name, n):
        c = ctx()
        f = c.func(name, Int, Int, Bool)
        l = SymList()
        l.items, l._n = None, n
        l.set_members(lambda i, x: f(i, x))
        return l, f

    def d_compatible():
        c = ctx()
        M, o, opts = manager()
        n, m = size('groups'), size('user')
        F, f = groups('grp', n)
        U, u = groups('usr', m)
        if not hasattr(o, '_user_fact'):
            c.unsupported('the representation of FactorizationManager has no _user_fact')
        o._user_fact = U
        old = Opq()
        o.fact_reindexing = old
        sub, w = c.func('sub', Int, Int, Bool), c.func('wit', Int, Int, Int)
        assume(Forall([Int, Int, Int], lambda i, j, x: Implies(And(sub(i, j), f(i, x)), u(j, x)), lambda i, j, x: [mp(sub(i, j), f(i, x))]),
               Forall([Int, Int], lambda i, j: Implies(Not(sub(i, j)), And(f(i, w(i, j)), Not(u(j, w(i, j))))), lambda i, j: [sub(i, j)]))
        cell.clear()
        cell.update(sub=sub, n=n.t, m=m.t, old=old)
        r = method(o, 'is_fact_compatible')(F)
        inr = lambda i, k: And(i >= 0, i < k)
        if bool(r):
            idx = o.fact_reindexing
            q, e = as_seq(idx)
            prove('as many groups as the user has', And(n.t == m.t, dterm(q) == n.t))
            j, k = c.const('j', Int), c.const('k', Int)
            assume(inr(j, n.t), inr(k, n.t))
            assume(touch(cell['db'](j)), touch(cell['db'](k)))
            ij, ik = num_term(e(j)), num_term(e(k))
            prove('every index is one of a group', inr(ij, n.t))
            prove('each user group receives a group it contains', sub(ij, j))
            prove('no group is used twice', Implies(ij == ik, j == k))
            prove('groups contained in several user groups are refused', Implies(sub(ij, k), k == j))
            cover('compatible')
        else:
            prove('the last accepted order is kept', z3.BoolVal(o.fact_reindexing is old))
            i, j = c.const('bi', Int), c.const('bj', Int)
            J = c.func('owner', Int, Int)
            # were the groups matched one to one by J, the answer would have been yes
            assume(n.t == m.t, forall(0, n.t, lambda i: And(inr(J(i), m.t), sub(i, J(i))), lambda i: [J(i)]),
                   Forall([Int, Int], lambda i, j: Implies(And(inr(i, n.t), inr(j, m.t), sub(i, j)), j == J(i)), lambda i, j: [sub(i, j)]),
                   Forall([Int, Int], lambda i, k: Implies(And(inr(i, n.t), inr(k, n.t), J(i) == J(k)), i == k), lambda i, k: [mp(J(i), J(k))]),
                   Forall([Int], lambda i: Implies(And(inr(i, n.t), touch(J(i) >= 0)), touch(sub(i, J(i)))), lambda i: [J(i)]))
            if 'it' in cell:
                assume(touch(J(cell['it']) >= 0), touch(sub(cell['it'], cell['at'])))
            prove('a one-to-one match is never refused', z3.BoolVal(False))

    def maps(L):
        return (L.mapping, L.inv_mapping)

    def pair_inv(L, t):
        sub, n, m = cell['sub'], cell['n'], cell['m']
        A, B = L.mapping, L.inv_mapping
        da, va, db, vb = A.dom, A.val, B.dom, B.val
        num = lambda f: (lambda k: num_term(f(k))) if f is not None else (lambda k: z3.IntVal(0))
        va, vb = num(va), num(vb)
        return da, va, db, vb, sub, n, m

    def outer(L, t, g):
        da, va, db, vb, sub, n, m = pair_inv(L, t)
        if z3.is_true(z3.simplify(t == g.n)):
            cell['db'] = db
            pigeonhole(va, n, db)
            interval_card(L.mapping.keyset(), n)
        return [('as many groups', n == m),
                ('the treated groups are mapped', Forall([Int], lambda i: da(i) == And(i >= 0, i < t), lambda i: [da(i)])),
                ('each to the only user group that contains it', forall(0, t, lambda i: And(
                    va(i) >= 0, va(i) < m, sub(i, va(i)), Forall([Int], lambda j: Implies(And(j >= 0, j < m, sub(i, j)), j == va(i)), lambda j: [sub(i, j)])), lambda i: [va(i)])),
                ('one-to-one', Forall([Int], lambda j: Implies(db(j), And(vb(j) >= 0, vb(j) < t, va(vb(j)) == j)), lambda j: [db(j)])),
                ('every image is known', forall(0, t, lambda i: And(db(va(i)), vb(va(i)) == i), lambda i: [va(i)])),
                ('the last accepted order', z3.BoolVal(L.self.fact_reindexing is cell['old']))]
    def inner(L, s, g):
        da, va, db, vb, sub, n, m = pair_inv(L, s)
        t = cell['it'] = t_(L.i)
        cell['at'] = s
        return [('the treated groups are mapped', Forall([Int], lambda i: Implies(i != t, da(i) == And(i >= 0, i < t)), lambda i: [da(i)])),
                ('each to the only user group that contains it', forall(0, t, lambda i: And(
                    va(i) >= 0, va(i) < m, sub(i, va(i)), Forall([Int], lambda j: Implies(And(j >= 0, j < m, sub(i, j)), j == va(i)), lambda j: [sub(i, j)])), lambda i: [va(i)])),
                ('this one when one was found', If(da(t), And(va(t) >= 0, va(t) < s, sub(t, va(t)),
                                                           Forall([Int], lambda j: Implies(And(j >= 0, j < s, sub(t, j)), j == va(t)), lambda j: [sub(t, j)])),
                                                Forall([Int], lambda j: Implies(And(j >= 0, j < s), Not(sub(t, j))), lambda j: [sub(t, j)]))),
                ('one-to-one', Forall([Int], lambda j: Implies(db(j), And(vb(j) >= 0, Or(vb(j) < t, And(vb(j) == t, da(t))), va(vb(j)) == j)), lambda j: [db(j)])),
                ('every image is known', Forall([Int], lambda i: Implies(Or(And(i >= 0, i < t), And(i == t, da(t))), And(db(va(i)), vb(va(i)) == i)), lambda i: [va(i)])),
                ('the last accepted order', z3.BoolVal(L.self.fact_reindexing is cell['old']))]
    us.append(Unit(E, 'FactorizationManager.__is_fact_compatible', d_compatible,
                   {'FactorizationManager.__is_fact_compatible:for#1': LoopSpec(inv=outer, dicts=('mapping', 'inv_mapping')),
                    'FactorizationManager.__is_fact_compatible:for#2': LoopSpec(inv=inner)}))
    def d_user():
        c = ctx()
        M, o, opts = manager()
        if not hasattr(o, '_user_fact'):
            c.unsupported('the representation of FactorizationManager has no _user_fact')
        cases = [None, [], [[3, 1], [0, 2]], [[5]], [[2, 4], [1], [7, 0, 3]]]
        given = cases[c.choose(len(cases))]
        arg_ = None if given is None else [list(g) for g in given]
        o.set_user_fact(arg_)
        got = o._user_fact
        prove("the caller's groups are unchanged", z3.BoolVal(arg_ == given))
        if given is None:
            prove('no groups', z3.BoolVal(got is None))
        else:
            g = [list(x) for x in got]
            prove('the same groups, sorted', z3.BoolVal(g == sorted(sorted(x) for x in given)))
    us.append(Unit(E, 'FactorizationManager.set_user_fact', d_user))

    # ---------------------------------------------------------------- the learner with default components
    def recorder(log, name):
        class R(Opq):
            def __init__(self, *a, **k):
                self._pv_a, self._pv_k = a, k
                self.batch_size = k.get('batch_size')
                log.append((name, self))
        R.__name__ = name
        return R

    def d_simplified():
        c = ctx()
        M = E.load(AL)
        import copy
        import sys
        pkg, opt = sys.modules['aideme.active_learning'], E.load('aideme.active_learning.factorization.optimization')
        log = []
        for mod, names in ((pkg, ('SimpleMargin', 'KernelVersionSpace')), (opt, ('Adam', 'FISTA')),
                           (M, ('SubspatialVersionSpace', 'SubspatialSimpleMargin', 'LinearFactorizationLearner', 'SparseGroupLassoPenalty'))):
            for nm in names:
                swap(mod, nm, recorder(log, nm))
        b = lambda: c.choose(2) == 1
        use_vs, cars, fista, decay = b(), b(), b(), b()
        full, fvs = ((False, False), (True, False), (True, True))[c.choose(3)]
        step = (None, 0.75)[c.choose(2)]
        adapt, exp = ((False, False), (True, False), (True, True))[c.choose(3)]
        D = {k: copy.deepcopy(v) for k, v in vars(M.SimplifiedSwapLearner).items() if isinstance(v, dict) and not k.startswith('_')}
        si, ns, re = size('swap_iter', 1), size('subspaces', 1), size('retries', 1)
        groups = [[0, 1], [2]]
        o = M.SimplifiedSwapLearner(swap_iter=si, num_subspaces=ns, retries=re, l1_penalty=0.25, l2_sqrt_penalty=0.5, train_sample_size=1000, use_vs=use_vs, cars=cars,
                                    use_fista=fista, use_exp_decay=decay, full_fact=full, use_fact_vs=fvs, refine_step_size=step, adapt_max_iter=adapt, refine_exp=exp,
                                    refine_min_iter=10, refine_max_iter=100, refine_every=5, refine_increment=10, one_hot_groups=groups, fact_C=7.0)
        now = {k: v for k, v in vars(M.SimplifiedSwapLearner).items() if isinstance(v, dict) and not k.startswith('_')}
        prove('the defaults of other learners are unchanged', z3.BoolVal(now == D))
        for nm in ('_active_learner', '_swap_model', '_refining_model', '_fact_model', '_swap_iter', '_num_subspaces', '_retries', '_max_iter_adapter'):
            if not hasattr(o, nm):
                c.unsupported('the representation of SwapLearner has no %s' % nm)
        prove('the schedule asked for', And(t_(o._swap_iter) == si.t, t_(o._num_subspaces) == ns.t, t_(o._retries) == re.t))
        prove('the first model asked for', z3.BoolVal(type(o._active_learner).__name__ == ('KernelVersionSpace' if use_vs else 'SimpleMargin')))
        want = None if not full else 'SubspatialVersionSpace' if fvs else 'SubspatialSimpleMargin'
        prove('the second model asked for', z3.BoolVal((o._fact_model is None) if want is None else type(o._fact_model).__name__ == want))
        if want == 'SubspatialSimpleMargin':
            prove('its parameter', z3.BoolVal(o._fact_model._pv_k.get('C') == 7.0))
        prove('two distinct linear models', z3.BoolVal(o._swap_model is not o._refining_model))
        ko, kr = o._swap_model._pv_k['optimizer'], o._refining_model._pv_k['optimizer']
        pen = o._refining_model._pv_k.get('penalty_term')
        prove('only the refining model is penalised', z3.BoolVal(o._swap_model._pv_k.get('penalty_term') is None and pen is not None))
        prove('the penalties and groups asked for', z3.BoolVal(pen._pv_k == {'l1_penalty': 0.25, 'l2_sqrt_penalty': 0.5, 'groups': groups}))
        prove('the optimizers asked for', z3.BoolVal(type(ko).__name__ == 'Adam' and type(kr).__name__ == ('FISTA' if fista else 'Adam')))
        prove('the refining budget asked for', z3.BoolVal(kr._pv_k['max_iter'] == 100))
        if step:
            prove('the refining step asked for', z3.BoolVal(kr._pv_k['step_size'] == 0.75))
        else:
            d = D['FISTA_CARS' if cars else 'FISTA_DEFAULT_PARAMS'] if fista else D['REFINE_CARS' if cars else 'REFINE_DEFAULT_PARAMS']
            prove('the default refining step', z3.BoolVal(kr._pv_k['step_size'] == d['step_size']))
        prove('only the budget stops the optimizers', z3.BoolVal(all(q._pv_k['gtol'] == 0 and q._pv_k['rel_tol'] == 0 for q in (ko, kr))))
        if adapt:
            for it in (1, 4, 5, 12, 30, 400):
                v = o._max_iter_adapter(it)
                w = (100 if it // 5 > 3.3219280948873626 else 10 * 2 ** (it // 5)) if exp else min(10 + 10 * (it // 5), 100)
                prove('the budget grows up to its maximum', z3.BoolVal(v == w and v <= 100))
        else:
            prove('the budget does not change', z3.BoolVal(o._max_iter_adapter is None))
    us.append(Unit(E, 'SimplifiedSwapLearner.__init__', d_simplified, max_paths=2000))

    def d_optimizer():
        c = ctx()
        M = E.load(AL)
        opt = E.load('aideme.active_learning.factorization.optimization')
        log = []
        for nm in ('Adam', 'FISTA'):
            swap(opt, nm, recorder(log, nm))
        step, mi, ev = symreal('step'), size('max_iter', 1), size('every', 1)
        fista = c.choose(2) == 1
        bs, N = ((None, None), (200, 1000), (200, 1001), (7, 3))[c.choose(4)]
        r = M.SimplifiedSwapLearner.get_optimizer(step, mi, batch_size=bs, adapt_every=ev, adapt_step_size=True, use_fista=fista, N=N)
        e = 1 if bs is None else -(-N // bs)
        k = r._pv_k
        prove('the optimizer asked for', z3.BoolVal(type(r).__name__ == ('FISTA' if fista else 'Adam')))
        prove('step, budget in epochs, period in epochs', And(t_(k['step_size']) == step.t, t_(k['max_iter']) == mi.t * e, t_(k['adapt_every']) == ev.t * e,
                                                       z3.BoolVal(k['batch_size'] == bs and k['adapt_step_size'] is True)))
    us.append(Unit(E, 'SimplifiedSwapLearner.get_optimizer', d_optimizer))

    # ---------------------------------------------------------------- one factorized model ranked by uncertainty
    def d_flm():
        c = ctx()
        M = E.load(AL)
        log = []
        clf = Linear('clf', log)
        swap(M, 'LinearFactorizationLearner', lambda *a, **k: clf)
        pterm = Opq()
        pterm.penalty = None
        swap(M, 'SparseGroupLassoPenalty', lambda *a, **k: pterm)
        swap(E.load('aideme.active_learning.factorization.optimization'), 'Adam', recorder([], 'Adam'))
        pen, pi, ns = symreal('pen'), size('penalty_iter'), size('subspaces', 1)
        assume(pen.t >= 0)
        prune, fresh_ = c.choose(2) == 1, c.choose(2) == 1
        lg = c.choose(2) == 1
        o = M.FLMUncertaintySampler(penalty=pen, num_subspaces=ns, prune=prune, penalty_iter=pi, log=lg)
        clf.penalty_term = pterm
        it = size('it')
        priv(o, 'FLMUncertaintySampler', 'it')
        setpriv(o, 'FLMUncertaintySampler', 'it', it)
        if fresh_:
            class Empty(Linear):
                weight_matrix = None
            clf.__class__ = Empty
        mat0, num0 = clf.weight_matrix, clf.num_subspaces
        pruned = []

        def pr(X, learner, *a, **k):
            pruned.append((X, learner, arg(a, k, 0, 'threshold', 0.99)))
            return Opq()
        swap(M, 'prune_irrelevant_subspaces', pr)
        data = Data(log)
        o.fit_data(data)
        (a, k), = calls(log, 'clf', 'fit')
        (X, y), _ = calls(log, 'data', 'training_set')[0]
        prove('trained on the labeled points', And(same_array(toarr(arg(a, k, 0, 'X')), X), same_array(toarr(arg(a, k, 1, 'y')), y)))
        f, x0 = arg(a, k, 2, 'factorization'), arg(a, k, 4, 'x0')
        if fresh_:
            prove('at first with the configured number of subspaces', And(z3.BoolVal(x0 is None), t_(f) == ns.t))
        else:
            prove('later from its weights', z3.BoolVal(x0 == mat0 and f == num0))
        ramp = And(pen.t > 0, it.t + 1 <= pi.t)
        if pterm.penalty is None:
            prove('full penalty after its warm-up', Not(ramp))
        else:
            v = as_term(pterm.penalty)
            prove('penalty only changed during its warm-up', ramp)
            if lg:
                import math
                u = c.const('u', Real)
                e1 = to_real(as_term(math.e)) - 1
                assume(u == 1 + e1 * z3.ToReal(it.t + 1) / z3.ToReal(pi.t))
                prove('penalty rising logarithmically with the iteration', to_real(v) == pen.t * funcs.log(u))
            else:
                prove('penalty proportional to the iteration', to_real(v) * z3.ToReal(pi.t) == pen.t * z3.ToReal(it.t + 1))
        prove('pruned exactly when configured', z3.BoolVal(len(pruned) == (1 if prune else 0)))
        if prune:
            prove('the trained model is pruned on the whole dataset', z3.BoolVal(pruned[0][0] is data.data and pruned[0][1] is clf and pruned[0][2] == 0.99 and o.clf is not clf))
        else:
            prove('the model is kept', z3.BoolVal(o.clf is clf))
            del log[:]
            o.clear()
            prove('a reset', And(t_(priv(o, 'FLMUncertaintySampler', 'it')) == 0, z3.BoolVal(kinds(log) == [('clf', 'clear')])))
        cover('fitted')
    us.append(Unit(E, 'FLMUncertaintySampler.fit_data', d_flm))
    return us


def pigeonhole(f, n, handle):
    """mathematical rule: a one-to-one map of 0..n-1 into itself is onto"""
    c = ctx()
    pre = c.func('pre', Int, Int)
    a, b, x = c.const('pa', Int), c.const('pb', Int), c.const('px', Int)
    inr = lambda i: And(i >= 0, i < n)
    assume(Or(And(inr(x), Not(inr(f(x)))), And(inr(a), inr(b), a != b, f(a) == f(b)),
              forall(0, n, lambda j: And(inr(pre(j)), f(pre(j)) == j), lambda j: [pre(j), handle(j)])))
    return pre


def interval_card(S, n):
    """mathematical rule: a set whose elements are exactly 0..n-1 has n elements"""
    c = ctx()
    x = c.const('out', Int)
    assume(Or(dterm(S.card()) == n, n < 0, S.has(x) != And(x >= 0, x < n)))


def units(E, prop):
    return globals()['units_' + prop](E)
