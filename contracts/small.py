"""Contracts of the strategies, metrics, noise, samplers, validators, metric logger and the command line
(C08, C20, C21, C22, C23, C26)."""
import math

from .common import *
from .explore import Obj, prop, raised

FUNCTIONS = {
    'C08': ['UncertaintySampler.*', 'QueryByDisagreement.__init__', 'QueryByDisagreement.fit_data', 'QueryByDisagreement.predict',
            'QueryByDisagreement.predict_proba', 'QueryByDisagreement.rank'],
    'C20': ['classification_metrics', 'training_classification_metrics', '__classification_metrics_calculator', '__true_divide',
            'the eight score functions', 'three_set_metric', 'prediction_entropy'],
    'C21': ['random_noise_injector', '__skip_initial_points', '__flip'],
    'C22': ['stratified_sampler', 'random_sampler', 'fixed_sampler'],
    'C23': ['assert_in_range', 'assert_positive', 'assert_non_negative', 'assert_positive_integer', 'assert_non_negative_integer',
            'process_callback', 'log_metric', 'log_metrics', 'flush', 'get_metrics', 'log_execution_time'],
    'C26': ['CommandLineExploration.__init__', 'CommandLineExploration.run', 'CommandLineExploration._is_willing',
            'CommandLineExploration._label', 'CommandLineExploration.__is_valid_input'],
}
ASSUMPTIONS = {
    'C08': ['classifiers are arbitrary functions recorded by contract; sklearn.base.clone gives a fresh unfitted copy',
            'sampling from the unlabeled points by the contract proved under C07'],
    'C20': ['sklearn confusion_matrix with labels [0, 1]: entry (a, b) counts the points with true label a and prediction b'],
    'C21': ['np.random.rand in [0, 1), np.random.randint in its range; labels and partial labels are 0 or 1'],
    'C22': ['np.random.choice without replacement: distinct positions, ValueError exactly when too few',
            'IndexedDataset.sample by its contract (C07)'],
    'C23': ['metric names are opaque (only hashed and compared), checked for two distinct names'],
    'C26': ['str.split: a line is any sequence of pieces between single blanks; when every piece is empty, 0 or 1, split() gives '
            'exactly the non-empty ones in order (assumed contract of str)',
            'ExplorationManager by its contract (C04, C05)'],
}
HALF = z3.Q(1, 2)


def spy(module, name):
    """results of a dependency's function, in order"""
    out, f = [], getattr(module, name)

    def g(*a, **k):
        r = f(*a, **k)
        out.append(r)
        return r
    setattr(module, name, g)
    ctx().undo.append(lambda: setattr(module, name, f))
    return out


# ------------------------------------------------------------------------------------------------ C08
class Clf(Opq):
    """arbitrary classifier; calls recorded"""

    def __init__(self, name='clf', kind='real'):
        self._pv_name, self._pv_kind, self._pv_calls = name, kind, []

    def __pvclone__(self):
        c = Clf(self._pv_name + "'", self._pv_kind)
        c._pv_origin = self
        return c

    def fit(self, X, y, sample_weight=None):
        cp = lambda a: None if a is None else toarr(a).copy()
        self._pv_calls.append(('fit', cp(X), cp(y), cp(sample_weight)))
        return self

    def _out(self, k, X):
        X = toarr(X)
        a = Arr.fresh(self._pv_name + '_' + k, (X.shape[0],), 'real')
        self._pv_calls.append((k, X.copy(), a.copy()))
        return a

    def predict(self, X):
        return self._out('predict', X)

    def predict_proba(self, X):
        return self._out('predict_proba', X)

    def calls(self, k):
        return [c for c in self._pv_calls if c[0] == k]


def units_C08(E):
    us = []

    def d_unc():
        M = E.load('aideme.active_learning.uncertainty')
        c = Clf()
        u = M.UncertaintySampler(c)
        n, d = size('n'), size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        X0, y0 = X.copy(), y.copy()
        u.fit(X, y)
        prove('fitted on the given data', And(z3.BoolVal(len(c.calls('fit')) == 1), same_array(c.calls('fit')[0][1], X0), same_array(c.calls('fit')[0][2], y0)))
        prove('no weights', z3.BoolVal(c.calls('fit')[0][3] is None))
        p = u.predict(X)
        prove('prediction of the classifier', And(same_array(toarr(p), c.calls('predict')[0][2]), same_array(c.calls('predict')[0][1], X0)))
        r = u.predict_proba(X)
        prove('probability of the classifier', And(same_array(toarr(r), c.calls('predict_proba')[0][2]), same_array(c.calls('predict_proba')[0][1], X0)))
        k = toarr(u.rank(X))
        q = c.calls('predict_proba')
        prove('ranked by a probability', z3.BoolVal(len(q) == 2))
        prove('of the given points', same_array(q[1][1], X0))
        rk, pr = k.reader(), q[1][2].reader()
        prove('one rank per point', dterm(k.shape[0]) == n.t)
        prove('rank is the distance of the probability from one half', forall(0, n.t, lambda i: rk(i) == If(pr(i) >= HALF, pr(i) - HALF, HALF - pr(i))))
        prove('the least certain point ranks lowest', Forall([Int, Int], lambda i, j: Implies(
            And(i >= 0, i < n.t, j >= 0, j < n.t, pr(i) >= 0, pr(i) <= 1, pr(j) >= 0, pr(j) <= 1,
                If(pr(i) > 1 - pr(i), pr(i), 1 - pr(i)) < If(pr(j) > 1 - pr(j), pr(j), 1 - pr(j))), rk(i) < rk(j))))
        prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0)))
    us.append(Unit(E, 'UncertaintySampler', d_unc))

    class Sample(Opq):
        pass

    def d_qbd():
        M = E.load('aideme.active_learning.query_by_disagreement')
        base = Clf('main')
        s, w = symint('bg_size'), symreal('bg_weight')
        q, err = raised(lambda: M.QueryByDisagreement(base, s, w), ValueError)
        if err is not None:
            prove('rejected only outside the domain', Or(s.t <= 0, w.t <= 0))
            return
        prove('accepted only inside the domain', And(s.t > 0, w.t > 0))
        P, N = q._positively_biased_learner, q._negatively_biased_learner
        prove('two separate copies of the learner', z3.BoolVal(isinstance(P, Clf) and isinstance(N, Clf) and P is not N and P is not base and N is not base
                                                               and P._pv_origin is base and N._pv_origin is base))
        nl, d = size('labeled', 1), size('d', 1)
        X, y = mat('X', nl, d), vec('y', nl)
        X0, y0 = X.copy(), y.copy()
        k = size('drawn', 1)
        B = mat('B', k, d)
        asked, log = [], []

        def sample(m=None):
            asked.append(m)
            o = Obj('sample', log, data=prop(lambda: B), index=prop(lambda: None))
            return o
        un = Obj('unlabeled', log, sample=sample)
        data = Obj('data', log, training_set=lambda get_partial=False: (X, y), unlabeled=prop(lambda: un), unlabeled_size=prop(lambda: size('u', 1)))
        q.fit_data(data)
        f = base.calls('fit')
        prove('the main model is fitted once', z3.BoolVal(len(f) == 1))
        prove('on the labeled points only', And(same_array(f[0][1], X0), same_array(f[0][2], y0)))
        prove('without weights', z3.BoolVal(f[0][3] is None))
        prove('one background sample of the configured size', z3.BoolVal(len(asked) == 1))
        prove('of the configured size', t_(asked[0]) == s.t)
        rx, ry, rb = X0.reader(), y0.reader(), B.reader()
        for L, lab, nm in ((P, 1, 'positively'), (N, 0, 'negatively')):
            f = L.calls('fit')
            prove('the %s biased model is fitted once' % nm, z3.BoolVal(len(f) == 1))
            Z, z, sw = f[0][1:]
            prove('%s: weighted' % nm, z3.BoolVal(sw is not None))
            gz, gl, gw = Z.reader(), z.reader(), sw.reader()
            prove('%s: labeled points and background' % nm, And(dterm(Z.shape[0]) == nl.t + k.t, dterm(z.shape[0]) == nl.t + k.t, dterm(sw.shape[0]) == nl.t + k.t))
            prove('%s: labeled points with their labels' % nm, And(forall2(nl.t, d.t, lambda i, j: gz(i, j) == rx(i, j)), forall(0, nl.t, lambda i: gl(i) == ry(i))))
            prove('%s: with full weight' % nm, forall(0, nl.t, lambda i: gw(i) == 1))
            prove('%s: background points' % nm, forall2(k.t, d.t, lambda i, j: gz(nl.t + i, j) == rb(i, j)))
            prove('%s: labeled all %d' % (nm, lab), forall(0, k.t, lambda i: gl(nl.t + i) == lab))
            prove('%s: with the background weight' % nm, forall(0, k.t, lambda i: gw(nl.t + i) == w.t))
        prove('the training data are unchanged', And(same_array(X, X0), same_array(y, y0)))
        m = size('m')
        Q = mat('Q', m, d)
        r = toarr(q.rank(Q))
        pp, nn = P.calls('predict'), N.calls('predict')
        prove('both biased models are asked once', z3.BoolVal(len(pp) == 1 and len(nn) == 1))
        prove('about the given points', And(same_array(pp[0][1], Q), same_array(nn[0][1], Q)))
        rr, a, b = r.reader(), pp[0][2].reader(), nn[0][2].reader()
        prove('one rank per point', dterm(r.shape[0]) == m.t)
        prove('rank is one exactly where they agree, zero elsewhere', forall(0, m.t, lambda i: to_real(rr(i)) == If(a(i) == b(i), z3.RealVal(1), z3.RealVal(0))))
        p = toarr(q.predict(Q))
        prove('predictions of the main model', And(same_array(p, base.calls('predict')[-1][2]), same_array(base.calls('predict')[-1][1], Q)))
        p = toarr(q.predict_proba(Q))
        prove('probabilities of the main model', And(same_array(p, base.calls('predict_proba')[-1][2]), same_array(base.calls('predict_proba')[-1][1], Q)))
    us.append(Unit(E, 'QueryByDisagreement', d_qbd))
    return us


# ------------------------------------------------------------------------------------------------ C20
SCORES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


def count(n, pred):
    """number of 0 <= i < n with pred(i)"""
    return toarr(Arr.make((n,), 'bool', pred)).sum()


def ratio(a, b):
    a, b = to_real(num_term(a)), to_real(num_term(b))
    return If(b == 0, z3.RealVal(0), a / b)


def units_C20(E):
    us = []
    MET = 'aideme.utils.metrics'

    def scores(res, ry, rp, n, names, prefix):
        tp = count(n, lambda i: And(ry(i) == 1, rp(i) == 1))
        fp = count(n, lambda i: And(ry(i) == 0, rp(i) == 1))
        fn = count(n, lambda i: And(ry(i) == 1, rp(i) == 0))
        tn = count(n, lambda i: And(ry(i) == 0, rp(i) == 0))
        want = {'true_positive': tp, 'false_positive': fp, 'true_negative': tn, 'false_negative': fn, 'accuracy': ratio(tp + tn, tp + tn + fp + fn),
                'precision': ratio(tp, tp + fp), 'recall': ratio(tp, tp + fn), 'fscore': ratio(2 * tp, 2 * tp + fp + fn)}
        prove('exactly the requested metrics, under their prefixed names', z3.BoolVal(isinstance(res, dict) and sorted(res) == sorted({prefix + k for k in names})))
        for k in names:
            v = to_real(num_term(res[prefix + k]))
            w = want[k]
            prove('%s is the textbook value' % k, v == (w if z3.is_expr(w) else to_real(num_term(w))))
            if k in SCORES[4:]:
                prove('%s lies between zero and one' % k, And(v >= 0, v <= 1))
            else:
                prove('%s is not negative' % k, v >= 0)

    def setup():
        n, d = size('n', 1), size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        ry = y.reader()
        assume(forall(0, n.t, lambda i: Or(ry(i) == 0, ry(i) == 1), lambda i: [ry(i)]))
        c = Clf()
        old = c._out

        def out(k, Z):
            a = old(k, Z)
            r = a.reader()
            assume(forall(0, dterm(a.shape[0]), lambda i: Or(r(i) == 0, r(i) == 1), lambda i: [r(i)]))
            return a
        c._pv_out = c.__dict__['_out'] = out
        return n, d, X, y, ry, c

    def d_test(names, prefix):
        def drv():
            M = E.load(MET)
            n, d, X, y, ry, c = setup()
            X0 = X.copy()
            f = M.classification_metrics(X, y, names, prefix) if prefix else M.classification_metrics(X, y, names)
            # what happens to the caller's arrays afterwards is the caller's business; the learner and dataset are asked now
            log = []
            data = Obj('data', log)
            res = f(data, c)
            q = c.calls('predict')
            prove('the learner predicts the held-out points once', z3.BoolVal(len(q) == 1 and len(c._pv_calls) == 1))
            prove('exactly the held-out points', same_array(q[0][1], X0))
            scores(res, ry, q[0][2].reader(), n, names, prefix)
        return drv
    us.append(Unit(E, 'classification_metrics[counts]', d_test(SCORES[:4], '')))
    us.append(Unit(E, 'classification_metrics[ratios]', d_test(SCORES[4:], 'pre_')))

    def d_train(names, prefix):
        def drv():
            M = E.load(MET)
            n, d, X, y, ry, c = setup()
            f = M.training_classification_metrics(names, prefix)
            log = []
            data = Obj('data', log, training_set=lambda get_partial=False: (X, y))
            res = f(data, c)
            q = c.calls('predict')
            prove('the learner predicts the labeled points once', z3.BoolVal(len(q) == 1 and len(c._pv_calls) == 1))
            prove('exactly the labeled points', same_array(q[0][1], X))
            scores(res, ry, q[0][2].reader(), n, names, prefix)
        return drv
    us.append(Unit(E, 'training_classification_metrics', d_train(SCORES, 'train_')))

    def d_names():
        M = E.load(MET)
        n, d, X, y, ry, c = setup()
        for bad in (['accuracy', 'acc'], ['f1'], ['Recall'], ['']):
            _, err = raised(lambda: M.classification_metrics(X, y, bad), ValueError)
            prove('unknown name rejected at once: %r' % bad, z3.BoolVal(err is not None))
            _, err = raised(lambda: M.training_classification_metrics(bad), ValueError)
            prove('unknown name rejected at once (training): %r' % bad, z3.BoolVal(err is not None))
    us.append(Unit(E, 'metric names', d_names))

    def d_tsm():
        M = E.load(MET)
        n, d = size('n', 1), size('d', 1)
        D = mat('D', n, d)
        log = []
        data = Obj('data', log, data=prop(lambda: D))
        prove('no polytope, no metric', z3.BoolVal(M.three_set_metric(data, object()) == {}))
        a = vec('ans', n)
        r = a.reader()
        assume(forall(0, n.t, lambda i: Or(r(i) == 0, r(i) == 1, r(i) == HALF), lambda i: [r(i)]))
        seen = []

        class Pol(Opq):
            def predict(self, X):
                seen.append(X.copy())
                return a

        class AL(Opq):
            polytope_model = Pol()
        pos, unk = count(n, lambda i: r(i) == 1), count(n, lambda i: r(i) == HALF)
        assume(num_term(pos) + num_term(unk) > 0)
        res = M.three_set_metric(data, AL())
        prove('polytope asked about the whole dataset', And(z3.BoolVal(len(seen) == 1), same_array(seen[0], D)))
        prove('reported as tsm', z3.BoolVal(sorted(res) == ['tsm']))
        v = to_real(num_term(res['tsm']))
        prove('share of certain positives among certain positives and unknowns', v == to_real(num_term(pos)) / (to_real(num_term(pos)) + to_real(num_term(unk))))
        prove('between zero and one', And(v >= 0, v <= 1))
    us.append(Unit(E, 'three_set_metric', d_tsm))
    return us


# ------------------------------------------------------------------------------------------------ C21
def units_C21(E):
    us = []
    NOI = 'aideme.utils.noise'
    from .explore import labeled_set

    def is01(ls, n, q, y, p):
        assume(forall(0, dterm(n), lambda i: Or(y(i) == 0, y(i) == 1), lambda i: [y(i)]))
        assume(forall2(dterm(n), dterm(q), lambda i, k: Or(p(i, k) == 0, p(i, k) == 1), lambda i, k: [p(i, k)]))

    def d_flip(single):
        def drv():
            M = E.load(NOI)
            rate = symreal('rate')
            skip = symint('skip')
            f, err = raised(lambda: M.random_noise_injector(rate, skip), ValueError)
            if err is not None:
                prove('rejected only outside the domain', Or(rate.t < 0, rate.t > 1, skip.t < 0))
                cover('rejected')
                return
            prove('rates outside zero to one are rejected', And(rate.t >= 0, rate.t <= 1))
            prove('negative numbers of initial iterations are rejected', skip.t >= 0)
            ls, n, q, y, p, e = labeled_set(E, q=1 if single else size('q', 2))
            qt = dterm(q)
            is01(ls, n, q, y, p)
            if single:
                assume(forall(0, n.t, lambda i: p(i, z3.IntVal(0)) == y(i), lambda i: [y(i)]))
            it = symint('iteration')
            draws = spy(M.np.random, 'randint')
            got = f(it, ls)
            a, b, c_ = ls.labels.reader(), ls.partial.reader(), ls.index.reader()
            prove('the given labeled set is not modified', And(forall(0, n.t, lambda j: And(a(j) == y(j), c_(j) == e(j))), forall2(n.t, qt, lambda i, j: b(i, j) == p(i, j))))
            gy, gp, gi = got.labels.reader(), got.partial.reader(), got.index.reader()
            prove('one entry per point', And(dterm(got.labels.shape[0]) == n.t, dterm(got.partial.shape[0]) == n.t, dterm(got.index.shape[0]) == n.t, dterm(got.partial.shape[1]) == qt))
            prove('same identifiers in the same order', forall(0, n.t, lambda i: gi(i) == e(i)))
            if got is not ls:
                for x, z, nm in ((got.labels, ls.labels, 'labels'), (got.partial, ls.partial, 'partial labels')):
                    prove('the %s are not shared with the given set' % nm, z3.BoolVal(x.buf is not z.buf))
            prove('every label is the true one or its flip', forall(0, n.t, lambda i: Or(gy(i) == y(i), gy(i) == 1 - y(i))))
            prove('no flip during the initial iterations', Implies(it.t <= skip.t, forall(0, n.t, lambda i: gy(i) == y(i))))
            prove('partial labels untouched during the initial iterations', Implies(it.t <= skip.t, forall2(n.t, qt, lambda i, k: gp(i, k) == p(i, k))))
            prove('no flip at rate zero', Implies(rate.t == 0, forall(0, n.t, lambda i: gy(i) == y(i))))
            prove('all flipped at rate one', Implies(And(rate.t == 1, it.t > skip.t), forall(0, n.t, lambda i: gy(i) == 1 - y(i))))
            i = ctx().const('i', Int)
            assume(i >= 0, i < n.t)
            prove('unflipped points keep their partial labels', Implies(gy(i) == y(i), forall(0, qt, lambda k: gp(i, k) == p(i, k))))
            prove('all partial labels become one when a label turns positive', Implies(And(y(i) == 0, gy(i) == 1), forall(0, qt, lambda k: gp(i, k) == 1)))
            one = lambda k: And(k >= 0, k < qt, gp(i, k) == 0, forall(0, qt, lambda m: Implies(m != k, gp(i, m) == p(i, m))))
            m = ctx().const('m', Int)
            assume(touch(gp(i, m) == 0))
            if single:
                some = one(z3.IntVal(0))
            elif len(draws) == 1 and isinstance(draws[0], Arr):       # the position drawn for this point is the witness
                r = draws[0].reader()
                some = Exists([Int], lambda j: one(r(j)), lambda j: [r(j)])
            else:
                some = Exists([Int], one)
            prove('exactly one partial label is set to zero when a label turns negative', Implies(And(y(i) == 1, gy(i) == 0), some))
            cover('injected')
        return drv
    us.append(Unit(E, 'random_noise_injector[one partial label]', d_flip(True)))
    us.append(Unit(E, 'random_noise_injector[several]', d_flip(False)))
    return us


# ------------------------------------------------------------------------------------------------ C22
def units_C22(E):
    us = []
    INI = 'aideme.initial_sampling'
    from .explore import labeled_set

    def d_strat(allsub):
        def drv():
            M = E.load(INI)
            ls, n, q, y, p, e = labeled_set(E)
            assume(forall(0, n.t, lambda i: Or(y(i) == 0, y(i) == 1), lambda i: [y(i)]))
            assume(forall2(n.t, q.t, lambda i, k: Or(p(i, k) == 0, p(i, k) == 1), lambda i, k: [p(i, k)]))
            a, b = symint('pos'), symint('neg')
            f, err = raised(lambda: M.stratified_sampler(ls, a, b, True) if allsub else M.stratified_sampler(ls, a, b), ValueError)
            if err is not None:
                prove('rejected only for sizes that are not positive', Or(a.t <= 0, b.t <= 0))
                return
            prove('non-positive sizes are rejected', And(a.t > 0, b.t > 0))
            pos = lambda i: y(i) == 1
            neg = (lambda i: forall(0, q.t, lambda k: p(i, k) == 0, lambda k: [p(i, k)])) if allsub else (lambda i: y(i) != 1)
            r, err = raised(lambda: f(None), ValueError)
            if err is not None:
                cp = Arr.make((n,), 'bool', pos).sum()
                cover('too few')
                if allsub:
                    return
                cn = Arr.make((n,), 'bool', neg).sum()
                prove('refused only when there are fewer points than requested', Or(num_term(cp) < a.t, num_term(cn) < b.t))
                return
            m, el = as_seq(r)
            prove('as many as requested', dterm(m) == a.t + b.t)
            v = lambda j: num_term(el(j))
            seen = lambda j: assume(touch(v(j) == ctx().const('z', Int)))
            j = ctx().const('j', Int)
            assume(j >= 0, j < a.t)
            seen(j)
            prove('first the positive ones', Exists([Int], lambda i: And(i >= 0, i < n.t, e(i) == v(j), pos(i)), lambda i: [e(i)]))
            k = ctx().const('k', Int)
            assume(k >= a.t, k < a.t + b.t)
            seen(k)
            prove('then the negative ones', Exists([Int], lambda i: And(i >= 0, i < n.t, e(i) == v(k), neg(i)), lambda i: [e(i)]))
            i2 = ctx().const('i2', Int)
            assume(i2 >= 0, i2 < a.t, i2 != j)
            prove('distinct positive identifiers', v(i2) != v(j))
            k2 = ctx().const('k2', Int)
            assume(k2 >= a.t, k2 < a.t + b.t, k2 != k)
            prove('distinct negative identifiers', v(k2) != v(k))
            cover('sampled')
        return drv
    us.append(Unit(E, 'stratified_sampler', d_strat(False)))
    us.append(Unit(E, 'stratified_sampler[all subspaces]', d_strat(True)))

    def d_rand():
        M = E.load(INI)
        s = symint('size')
        f, err = raised(lambda: M.random_sampler(s), ValueError)
        if err is not None:
            prove('rejected only for sizes that are not positive', s.t <= 0)
            return
        prove('non-positive sizes are rejected', s.t > 0)
        log, asked = [], []
        ids = vec('ids', size('k'), 'int')
        smp = Obj('sample', log, index=prop(lambda: ids))
        un = Obj('unlabeled', log, sample=lambda m=None: (asked.append(m), smp)[1])
        r = f(Obj('data', log, unlabeled=prop(lambda: un)))
        prove('one sample of the unlabeled points', z3.BoolVal(len(asked) == 1))
        prove('of the requested size', t_(asked[0]) == s.t)
        prove('its identifiers', same_array(toarr(r), ids))
    us.append(Unit(E, 'random_sampler', d_rand))

    def d_fixed():
        M = E.load(INI)
        l = [7, 3, 9]
        f = M.fixed_sampler(l)
        prove('exactly the given list', z3.BoolVal(f(None) is l or list(f(None)) == [7, 3, 9]))
        a = vec('ids', size('n'), 'int')
        prove('exactly the given identifiers', same_array(toarr(M.fixed_sampler(a)(None)), a))
    us.append(Unit(E, 'fixed_sampler', d_fixed))
    return us


# ------------------------------------------------------------------------------------------------ C23
def units_C23(E):
    us = []
    VAL = 'aideme.utils.validation'
    INF = math.inf

    def d_val(name, positive, integer):
        def drv():
            M = E.load(VAL)
            f = getattr(M, name)
            for inf_ok in ((False, True, None)[ctx().choose(3)],):
                for none_ok in ((False, True, None)[ctx().choose(3)],):
                    kw = {}
                    if inf_ok is not None:
                        kw['allow_inf'] = inf_ok
                    if none_ok is not None:
                        kw['allow_none'] = none_ok
                    ok = lambda v: raised(lambda: f(v, 'x', **kw), ValueError)[1] is None
                    tag = ' (%s)' % ', '.join('%s=%s' % x for x in sorted(kw.items()))
                    prove('none accepted only when allowed' + tag, z3.BoolVal(ok(None) == bool(none_ok)))
                    prove('infinity accepted only when allowed' + tag, z3.BoolVal(ok(INF) == bool(inf_ok)))
                    prove('minus infinity rejected' + tag, z3.BoolVal(not ok(-INF)))
                    prove('not a number rejected' + tag, z3.BoolVal(not ok(math.nan)))
                    for bad in ('1', 'x', [1], (2,), {}, 1 + 0j):
                        prove('values of another type rejected: %r%s' % (bad, tag), z3.BoolVal(raised(lambda: f(bad, 'x', **kw), ValueError, TypeError)[1] is not None))
                    i, r = symint('i'), symreal('r')
                    prove('integers exactly in the range' + tag, wrap_bool(ok(i)) == ((i.t > 0) if positive else (i.t >= 0)))
                    if integer:
                        prove('reals rejected' + tag, z3.BoolVal(not ok(r)))
                    else:
                        prove('reals exactly in the range' + tag, wrap_bool(ok(r)) == ((r.t > 0) if positive else (r.t >= 0)))
        return drv
    wrap_bool = lambda b: z3.BoolVal(bool(b))
    for nm, p, i in (('assert_positive', 1, 0), ('assert_non_negative', 0, 0), ('assert_positive_integer', 1, 1), ('assert_non_negative_integer', 0, 1)):
        for inf_ok in (None,):
            us.append(Unit(E, nm, d_val(nm, p, i)))

    def d_range():
        M = E.load(VAL)
        v, lo, hi = symreal('v'), symreal('lo'), symreal('hi')
        _, err = raised(lambda: M.assert_in_range(v, 'x', lo, hi), ValueError)
        prove('accepted exactly inside the range', z3.BoolVal(err is None) == And(lo.t <= v.t, v.t <= hi.t))
        _, err = raised(lambda: M.assert_in_range(math.nan, 'x', 0, 1), ValueError)
        prove('not a number rejected', z3.BoolVal(err is not None))
    us.append(Unit(E, 'assert_in_range', d_range))

    def d_cb():
        M = E.load(VAL)
        f, g = (lambda: 1), (lambda: 2)
        prove('none', z3.BoolVal(list(M.process_callback(None)) == [] and list(M.process_callback([])) == []))
        prove('one function', z3.BoolVal(list(M.process_callback(f)) == [f]))
        prove('several, in order', z3.BoolVal(list(M.process_callback([f, g, f])) == [f, g, f]))
        for bad in ([f, 1], ['x'], [None], (1, g)):
            prove('not callable: rejected %r' % (len(bad),), z3.BoolVal(raised(lambda: M.process_callback(bad), ValueError)[1] is not None))
    us.append(Unit(E, 'process_callback', d_cb))

    LOG = 'aideme.utils.metric_logger'
    K, O = 'some metric', 'another metric'

    def state(M, other):
        """an arbitrary store: another metric is there, and K is absent, a number, or a list"""
        M.flush()
        M.log_metric(O, other)
        k = ctx().choose(3)
        if k == 1:
            v = symreal('old')
            M.log_metric(K, v)
            return k, v
        if k == 2:
            n = size('logged')
            a = vec('olds', n)
            M.log_metric(K, a.tolist())
            return k, a.copy()
        return k, None

    def d_log(policy):
        def drv():
            M = E.load(LOG)
            other = object()
            k, old = state(M, other)
            if policy.lower() == 'sum' and k == 2 or policy.lower() == 'append' and k == 1:
                raise EndPath()           # a metric is used with one policy
            v = symreal('v')
            if bool(symbool('many')):
                M.log_metrics({K: v}, policy) if policy != 'overwrite' else M.log_metrics({K: v})
            else:
                M.log_metric(K, v, policy) if policy != 'overwrite' else M.log_metric(K, v)
            m = M.get_metrics()
            prove('exactly the logged metrics', z3.BoolVal(sorted(m) == sorted([K, O])))
            prove('other metrics are untouched', z3.BoolVal(m[O] is other))
            p = policy.lower()
            if p == 'overwrite':
                prove('the last value', t_(m[K]) == v.t)
            elif p == 'sum':
                prove('the sum', t_(m[K]) == (v.t if old is None else old.t + v.t))
            else:
                n, el = as_seq(m[K])
                if old is None:
                    prove('a list of the value', And(dterm(n) == 1, num_term(el(z3.IntVal(0))) == v.t))
                else:
                    rd, n0 = old.reader(), dterm(old.shape[0])
                    prove('all values in order', And(dterm(n) == n0 + 1, forall(0, n0, lambda i: num_term(el(i)) == rd(i)), num_term(el(n0)) == v.t))
            cover('logged')
            kept = dict(m)
            M.flush()
            prove('flushing forgets everything', z3.BoolVal(len(M.get_metrics()) == 0))
            prove('metrics handed out are not altered', z3.BoolVal(sorted(m) == sorted(kept) and all(m[x] is kept[x] for x in kept)))
            M.log_metric(K, 5)
            prove('metrics handed out are not altered later', z3.BoolVal(all(m[x] is kept[x] for x in kept)))
        return drv
    for pol in ('overwrite', 'sum', 'append', 'SUM', 'Append', 'Overwrite'):
        us.append(Unit(E, 'log_metric[%s]' % pol, d_log(pol)))

    def d_flush():
        M = E.load(LOG)
        k, old = state(M, [None, 0, [], '', object(), {}, True][ctx().choose(7)])
        m = M.get_metrics()
        kept = dict(m)
        M.flush()
        prove('flushing forgets everything', z3.BoolVal(len(M.get_metrics()) == 0))
        prove('metrics handed out are not altered', z3.BoolVal(sorted(m) == sorted(kept) and all(m[x] is kept[x] for x in kept)))
        v = symreal('v')
        pol = ('overwrite', 'sum', 'append')[ctx().choose(3)]
        M.log_metric(K, v, pol)
        got = M.get_metrics()
        one = got[K] if pol != 'append' else as_seq(got[K])[1](z3.IntVal(0))
        prove('a new metric starts afresh', And(z3.BoolVal(sorted(got) == [K]), t_(one) == v.t))
        if pol == 'append':
            prove('with one value', dterm(as_seq(got[K])[0]) == 1)
    us.append(Unit(E, 'flush', d_flush))

    def d_policy():
        M = E.load(LOG)
        for bad in ('', 'add', 'sums', 'over write', 'appended'):
            other = object()
            k, old = state(M, other)
            before = dict(M.get_metrics())
            for f in (lambda: M.log_metric(K, 1, bad), lambda: M.log_metrics({K: 1}, bad)):
                prove('unknown policy rejected: %r' % bad, z3.BoolVal(raised(f, ValueError)[1] is not None))
            m = M.get_metrics()
            prove('a rejected metric changes nothing', z3.BoolVal(sorted(m) == sorted(before) and all(m[x] is before[x] for x in m)))
    us.append(Unit(E, 'log_metric[unknown policy]', d_policy))

    def d_time(policy):
        def drv():
            M = E.load(LOG)
            times = [symreal('t%d' % i) for i in range(8)]
            it = iter(times)
            swap(M, 'perf_counter', lambda: next(it))
            M.flush()
            res, calls = object(), []

            def fn(*a, **k):
                calls.append((a, k))
                return res
            g = M.log_execution_time(K, on_duplicates=policy)(fn) if policy else M.log_execution_time(K)(fn)
            prove('decorating logs nothing and calls nothing', z3.BoolVal(not calls and not M.get_metrics()))
            a, b = object(), object()
            r = g(a, k=b)
            prove('its own result', z3.BoolVal(r is res))
            prove('called once with its own arguments', z3.BoolVal(len(calls) == 1 and calls[0][0] == (a,) and calls[0][1] == {'k': b}))
            m = M.get_metrics()
            prove('only its time is logged', z3.BoolVal(sorted(m) == [K]))
            d1 = times[1].t - times[0].t
            one = lambda v: v if policy != 'append' else as_seq(v)[1](z3.IntVal(0))
            prove('the elapsed time', t_(one(m[K])) == d1)
            g(a)
            d2 = times[3].t - times[2].t
            if policy in (None, 'overwrite'):
                prove('overwritten', t_(m[K]) == d2)
            elif policy == 'sum':
                prove('summed', t_(m[K]) == d1 + d2)
            else:
                n, el = as_seq(m[K])
                prove('appended', And(dterm(n) == 2, t_(el(z3.IntVal(0))) == d1, t_(el(z3.IntVal(1))) == d2))
            prove('the clock is read twice a call', z3.BoolVal(next(it) is times[4]))
        return drv
    for pol in (None, 'sum', 'append'):
        us.append(Unit(E, 'log_execution_time[%s]' % pol, d_time(pol)))
    return us


# ------------------------------------------------------------------------------------------------ C26
def code(s):
    """pieces of typed text: '' 0, '0' 1, '1' 2, 'y' 3, 'n' 4, anything else 5 and up"""
    return {'': 0, '0': 1, '1': 2, 'y': 3, 'n': 4}.get(s)


class Tok:
    """a piece of typed text"""

    def __init__(self, t, sep=None):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, Tok):
            return wrap(self.t == o.t)
        if isinstance(o, str) and code(o) is not None:
            return wrap(self.t == code(o))
        ctx().unsupported('typed text compared with %r' % (o,))

    def __ne__(self, o):
        return wrap(Not(t_(self == o)))

    __hash__ = None

    def __pvint__(self):
        v = ctx().func('intof', Int, Int)
        ctx().prove('only 0 and 1 are converted', Or(self.t == 1, self.t == 2))
        return wrap(z3.simplify(self.t - 1))

    def __bool__(self):
        return bool(wrap(self.t != 0))

    def pv_subst(self, pairs):
        return Tok(z3.substitute(self.t, *pairs))

    def isdigit(self):
        ctx().unsupported('isdigit of typed text')


class TokSet:
    def __init__(self, n, el):
        self.n, self.el = n, el

    def issubset(self, s):
        cs = [code(x) for x in s]
        if None in cs:
            ctx().unsupported('a set of other texts')
        from pyvc.reduce import reduce1
        el = self.el
        return wrap(reduce1('all', lambda j: Or([el(j).t == c for c in cs]), self.n, 'bool'))

    __le__ = issubset


class TokList(SymList):
    @property
    def pv_toset(self):
        return lambda: TokSet(self.n, self.elem)


def toklist(n, fn):
    r = TokList()
    r.items, r._n, r._fn = None, n, fn
    return r


class Line(Opq):
    """a typed line: pieces between single blanks"""

    def __init__(self):
        c = ctx()
        self._pv_n = size('pieces', 1)
        self._pv_P = c.func('piece', Int, Int)
        P, n = self._pv_P, self._pv_n
        assume(forall(0, n.t, lambda j: P(j) >= 0, lambda j: [P(j)]))
        self._pv_ne = None

    def nonempty(self):
        """positions of the non-empty pieces, in order"""
        P = self._pv_P
        from pyvc.arrays import mask_select
        return mask_select(Arr.make((self._pv_n,), 'bool', lambda j: P(j) != 0), with_rank=True)

    def formed(self):
        """only empty pieces, 0 and 1"""
        P = self._pv_P
        return forall(0, self._pv_n.t, lambda j: And(P(j) >= 0, P(j) <= 2), lambda j: [P(j)])

    def split(self, sep=None):
        P = self._pv_P
        if sep == ' ':
            return toklist(self._pv_n, lambda j: Tok(P(j)))
        if sep is not None:
            ctx().unsupported('split at %r' % (sep,))
        # well-formed: the non-empty pieces; otherwise any non-empty tokens
        if self._pv_ne is None:
            sel, cnt, rank = self.nonempty()
            c = ctx()
            m, Q = size('tokens'), c.func('token', Int, Int)
            ok = self.formed()
            assume(forall(0, m.t, lambda j: Q(j) > 0, lambda j: [Q(j)]))
            assume(Implies(ok, And(m.t == dterm(cnt), forall(0, dterm(cnt), lambda j: Q(j) == P(sel(j)), lambda j: [Q(j)]))))
            self._pv_ne = (m, Q)
        m, Q = self._pv_ne
        return toklist(m, lambda j: Tok(Q(j)))


def units_C26(E):
    us = []
    CLI = 'aideme.explore.command_line_explore'
    KEY = 'CommandLineExploration.'

    def cli(M, **kw):
        return M.CommandLineExploration(**kw)

    class Inputs:
        def __init__(self, make):
            self.make, self.n, self.last = make, 0, None

        def __call__(self, prompt=''):
            self.n += 1
            self.last = self.make()
            return self.last

    def d_valid():
        M = E.load(CLI)
        inp = Inputs(Line)
        M.__dict__['input'] = inp
        ctx().undo.append(lambda: M.__dict__.pop('input', None))
        n, d = size('points', 1), size('d', 1)
        pts = mat('pts', n, d)
        f = getattr(M.CommandLineExploration, '_CommandLineExploration__is_valid_input', None)
        if f is None:
            ctx().unsupported('__is_valid_input is gone')
        ok, labels = f(pts)
        line = inp.last
        prove('one answer is read', z3.BoolVal(inp.n == 1))
        sel, cnt, rank = line.nonempty()
        good = And(line.formed(), dterm(cnt) == n.t)
        okt = t_(ok)
        prove('accepted exactly when one 0 or 1 was typed for each point', okt == good)
        if ctx().branch(okt):
            m, el = as_seq(labels)
            P = line._pv_P
            prove('one label per point', dterm(m) == n.t)
            prove('in the order typed', forall(0, n.t, lambda j: num_term(el(j)) == P(sel(j)) - 1))
            prove('every label is 0 or 1', forall(0, n.t, lambda j: Or(num_term(el(j)) == 0, num_term(el(j)) == 1)))
            cover('accepted')
        else:
            cover('refused')
    us.append(Unit(E, KEY + '__is_valid_input', d_valid))

    cell = {}

    def typed(M, make):
        inp = Inputs(make)
        cell.clear()
        cell['inp'] = inp
        M.__dict__['input'] = inp
        ctx().undo.append(lambda: M.__dict__.pop('input', None))
        return inp

    def d_label():
        M = E.load(CLI)
        inp = typed(M, Line)
        n, d = size('points', 1), size('d', 1)
        pts, ids = mat('pts', n, d), vec('ids', n, 'int')
        cell['n'] = n
        c = cli(M)
        got = c._label(ids, pts)
        line = inp.last
        prove('an answer was read', z3.BoolVal(line is not None))
        sel, cnt, rank = line.nonempty()
        P = line._pv_P
        prove('the accepted answer is well formed', And(line.formed(), dterm(cnt) == n.t))
        gy, gi = got.labels.reader(), got.index.reader()
        prove('one label per point', And(dterm(got.labels.shape[0]) == n.t, dterm(got.index.shape[0]) == n.t))
        prove('the labels typed, in order', forall(0, n.t, lambda j: to_real(gy(j)) == to_real(P(sel(j)) - 1)))
        prove('paired with the identifiers shown', same_array(toarr(got.index), ids))
        cover('stored')

    def lb_inv(L, t, g):
        """the state of the last answer"""
        line, n = cell['inp'].last, cell['n']
        sel, cnt, rank = line.nonempty()
        ok = t_(L.is_valid)
        good = And(line.formed(), dterm(cnt) == n.t)
        out = [('an answer is accepted only when well formed', Implies(ok, good))]
        if L.labels is None:
            out.append(('accepted answers have labels', Not(ok)))
        else:
            m, el = as_seq(L.labels)
            P = line._pv_P
            out.append(('labels of the last answer', Implies(ok, And(dterm(m) == n.t, forall(0, n.t, lambda j: And(
                num_term(el(j)) == P(sel(j)) - 1, num_term(el(j)) >= 0, num_term(el(j)) <= 1), lambda j: [P(sel(j))])))))
        return out

    def any_labels(c):
        cell['inp'].last = Line()
        F, m = c.func('label', Int, Int), size('labels')
        return SymList.of(m, lambda i: wrap(F(t_(i))))
    us.append(Unit(E, KEY + '_label', d_label, {KEY + '_label:while#1': LoopSpec(inv=lb_inv, types={'labels': any_labels})}))

    def d_willing():
        M = E.load(CLI)
        inp = typed(M, lambda: Tok(symint('answer').t))
        c = cli(M)
        r = c._is_willing
        a = inp.last.t
        prove('continues on a yes, stops on a no', And(Or(a == 3, a == 4), t_(r) == (a == 3)))
        cover('answered')

    def any_answer(c):
        cell['inp'].last = Tok(symint('answer').t)
        return cell['inp'].last
    us.append(Unit(E, KEY + '_is_willing', d_willing, {KEY + '_is_willing:while#1': LoopSpec(
        inv=lambda L, t, g: [('the last answer', L.val.t == cell['inp'].last.t)], types={'val': any_answer})}))

    def d_run():
        M = E.load(CLI)
        C = M.CommandLineExploration
        if '_label' not in vars(C) or '_is_willing' not in vars(C):
            ctx().unsupported('CommandLineExploration has no _label or _is_willing')
        log, made = [], []
        cell.clear()
        cell['log'] = log
        X = mat('X', size('n', 1), size('d', 1))

        class Mgr(Opq):
            def __init__(self, *a, **k):
                made.append((a, k))
                self._pv_log = log

            def converged(self):
                r = symbool('converged')
                log.append(('converged', r))
                return r

            def get_next_to_label(self):
                m = size('m', 1)
                b = Obj('batch', [], index=prop(lambda: self._pv_i), data=prop(lambda: self._pv_d))
                self._pv_i, self._pv_d = vec('ids', m, 'int'), mat('rows', m, 2)
                log.append(('next', self._pv_i, self._pv_d))
                return b

            def update(self, ls):
                log.append(('update', ls))
        parts = []

        def part(data, copy=True, **kw):
            parts.append((data, copy, object()))
            return parts[-1][2]
        swap(M, 'PartitionedDataset', part)
        swap(M, 'ExplorationManager', Mgr)

        def label(self, idx, pts):
            r = object()
            log.append(('label', idx, pts, r))
            return r

        def willing(self):
            r = symbool('willing')
            log.append(('willing', r))
            return r
        old = vars(C)['_label'], vars(C)['_is_willing']
        C._label, C._is_willing = label, property(willing)
        ctx().undo.append(lambda: (setattr(C, '_label', old[0]), setattr(C, '_is_willing', old[1])))
        M.__dict__['input'] = lambda *a: ctx().unsupported('run reads answers itself')
        ctx().undo.append(lambda: M.__dict__.pop('input', None))
        sub, skip = symint('sub'), symint('skip')
        assume(sub.t > 0, skip.t > 0)
        cb, cr, init, al = (lambda *a: {}), (lambda *a: False), object(), object()
        c = C(init, sub, cb, skip, cr)
        c.run(X, al)
        ok = len(parts) == 1 and len(made) == 1
        prove('one partition and one manager', z3.BoolVal(ok))
        prove('over the given data', z3.BoolVal(parts[0][0] is X))
        import inspect
        MGR = E.load('aideme.explore.manager').ExplorationManager
        b = inspect.signature(MGR.__init__).bind(None, *made[0][0], **made[0][1]).arguments
        prove('the manager works on that partition and learner', z3.BoolVal(b['data'] is parts[0][2] and b['active_learner'] is al))
        prove('with the configured initial sampler', z3.BoolVal(b['initial_sampler'] is init))
        prove('with the configured subsampling', t_(b['subsampling']) == sub.t)
        prove('with the configured callbacks', z3.BoolVal(list(b['callback']) == [cb]))
        prove('at the configured interval', t_(b['callback_skip']) == skip.t)
        prove('with the configured criteria', z3.BoolVal(list(b['convergence_criteria']) == [cr]))
        # the end of the run
        ev = [x for x in log if x[0] != 'head']
        last = ev[-1]
        prove('a run ends with a converged exploration or an unwilling user', (And(z3.BoolVal(last[0] in ('converged', 'willing')),
              t_(last[1]) if last[0] == 'converged' else Not(t_(last[1]))) if last[0] in ('converged', 'willing') else z3.BoolVal(False)))
        cover('run over')

    def run_inv(L, t, g):
        log = cell['log']
        k = max([i for i, x in enumerate(log) if x[0] == 'head'], default=-1)
        ev = log[k + 1:]
        log.append(('head',))
        if not ev:
            return [('one round', z3.BoolVal(True))]
        names = [x[0] for x in ev]
        ok = names in (['converged', 'willing', 'next', 'label', 'update'], ['willing', 'converged', 'next', 'label', 'update'])
        out = [('each round: not converged, willing, one batch shown, labeled and given to the manager', z3.BoolVal(ok))]
        if ok:
            d = {x[0]: x for x in ev}
            out += [('only while not converged', Not(t_(d['converged'][1]))), ('only while the user is willing', t_(d['willing'][1])),
                    ('the points shown are the proposed ones', And(same_array(toarr(d['label'][1]), d['next'][1]), same_array(toarr(d['label'][2]), d['next'][2]))),
                    ('the manager gets those labels', z3.BoolVal(d['update'][1] is d['label'][3]))]
        return out
    us.append(Unit(E, KEY + 'run', d_run, {KEY + 'run:while#1': LoopSpec(inv=run_inv)}))

    def d_init():
        M = E.load(CLI)
        sub, skip = symint('sub'), symint('skip')
        none = ctx().choose(2) == 1
        _, err = raised(lambda: M.CommandLineExploration(None, None if none else sub, None, skip, None), ValueError)
        prove('accepted exactly for positive sizes and intervals', z3.BoolVal(err is None) == And(skip.t > 0, Or(z3.BoolVal(none), sub.t > 0)))
    us.append(Unit(E, KEY + '__init__', d_init))
    return us


def units(E, prop_):
    return globals()['units_' + prop_](E)
