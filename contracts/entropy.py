"""Contracts of the entropy-reduction learner and of the SVM margin strategies (C30)."""
import z3

from pyvc.reduce import equal_sums, equate_sums, link_sums
from pyvc import funcs

from .common import *
from .explore import bound, Obj, prop, raised
from .kernels import total
from .sampler import restub, restub1
from .small import HALF

FUNCTIONS = {
    'C30': ['EntropyReductionLearner.__init__', 'EntropyReductionLearner.fit_data', 'EntropyReductionLearner.clear', 'EntropyReductionLearner.rank',
            'EntropyReductionLearner.__entropy', 'EntropyReductionLearner.__compute_average_entropy', 'EntropyReductionLearner.predict_all',
            'SimpleMargin.*', 'RatioMargin.*'],
}
ASSUMPTIONS = {
    'C30': ['the votes of the hypotheses are zero or one and the probability of a point is the share of its votes (C15)',
            'the support vector machine is arbitrary: fit, decision function, support vectors and dual coefficients recorded',
            'infinity is an opaque value that the code only stores', 'a finite sum depends only on its terms (extensionality)'],
}


def xlogx(p):
    return If(p == 0, z3.RealVal(0), p * funcs.log(p))


def entropy(p):
    return -xlogx(p) - xlogx(1 - p)


def learner(E, log):
    """a real learner whose classifier is arbitrary"""
    M = E.load('aideme.active_learning.entropy')
    V = E.load('aideme.active_learning.version_space.base')
    st = dict(init=[], fits=[], all=[], proba=[], cleared=0)

    class LR(Opq):
        def __init__(self, *a, **k):
            st['init'].append(('logreg', a, k))

    class KR(Opq):
        def __init__(self, *a, **k):
            st['init'].append(('kernel', a, k))

        def fit(self, X, y):
            st['fits'].append((X, y))

        def clear(self):
            st['cleared'] += 1

        def predict_proba(self, X):
            X = toarr(X)
            p = vec('proba', X.shape[0])
            st['proba'].append((X.copy(), p.copy()))
            return p

        def predict_all(self, X):
            X = toarr(X)
            H = mat('votes', st['ns'], X.shape[0])
            r = H.reader()
            assume(forall2(st['ns'].t, dterm(X.shape[0]), lambda h, i: Or(r(h, i) == 0, r(h, i) == 1), lambda h, i: [r(h, i)]))
            st['all'].append((X.copy(), H.copy()))
            return H
    st['real'] = (V.DeterministicLogisticRegression, V.KernelBayesianLogisticRegression)
    swap(V, 'DeterministicLogisticRegression', LR)
    swap(V, 'KernelBayesianLogisticRegression', KR)
    st['ns'] = size('hypotheses', 1)
    return M, st


def units(E, prop_id):
    us = []

    def d_state():
        M, st = learner(E, [])
        c = ctx()
        k = size('k') if c.choose(2) else None
        sopt = dict(single_chain=False, warmup=17, thin=3, cache_samples=False, rounding=True, rounding_cache=False, rounding_options={'strategy': 'opt'},
                    add_intercept=False)
        o, err = raised(lambda: M.EntropyReductionLearner(data_sample_size=k, n_samples=st['ns'], kernel='poly', gamma=2, degree=5, coef0=4, jitter=3, **sopt), ValueError)
        if err is not None:
            prove('rejected only for a sample size that is not positive', z3.BoolVal(k is not None) if k is None else k.t <= 0)
            return
        if k is not None:
            prove('only positive sample sizes are accepted', k.t > 0)
        lr = [x for x in st['init'] if x[0] == 'logreg']
        kr = [x for x in st['init'] if x[0] == 'kernel']
        prove('one sampler and one kernel model', z3.BoolVal(len(lr) == 1 and len(kr) == 1))
        la, ka = bound(st['real'][0], lr[0]), bound(st['real'][1], kr[0])
        prove('the sampler parameters are passed on', z3.BoolVal(all(q in la and (la[q] is v or la[q] == v) for q, v in sopt.items())))
        prove('the kernel and its parameters are passed on', z3.BoolVal(all(ka.get(a) == b for a, b in (('kernel', 'poly'), ('gamma', 2), ('degree', 5), ('coef0', 4), ('jitter', 3)))))
        prove('the number of hypotheses is passed on', z3.BoolVal(la.get('n_samples') is st['ns']))
        n, d, s = size('n', 1), size('d', 1), size('s', 1)
        X, y, S = mat('X', n, d), vec('y', n), mat('S', s, d)
        asked = []

        def sample(m=None):
            asked.append(m)
            return S
        data = Obj('data', [], training_set=lambda get_partial=False: (X, y), sample=sample)
        o.fit_data(data)
        prove('fitted once on the labeled points', z3.BoolVal(len(st['fits']) == 1))
        prove('the labeled points and their labels', And(same_array(toarr(st['fits'][0][0]), X), same_array(toarr(st['fits'][0][1]), y)))
        prove('one sample of the configured size from all the data', z3.BoolVal(len(asked) == 1 and asked[0] is k))
        cover('fitted')
        prove('nothing is reset before', z3.BoolVal(st['cleared'] == 0))
        o.clear()
        prove('a reset resets the model', z3.BoolVal(st['cleared'] == 1))
    us.append(Unit(E, 'EntropyReductionLearner.fit_data', d_state))

    def d_average():
        M, st = learner(E, [])
        o = M.EntropyReductionLearner()
        m, s = size('m'), size('s', 1)
        P = mat('P', m, s)
        f = None
        for k in vars(M.EntropyReductionLearner):
            if k.endswith('__compute_average_entropy'):
                f = getattr(o, k)
        if f is None:
            ctx().unsupported('no helper of this name')
        P0 = P.copy()
        r = toarr(f(P))
        c = ctx()
        i = c.const('i', Int)
        assume(i >= 0, i < m.t)
        g = P0.reader()
        prove('one value per row', dterm(r.shape[0]) == m.t)
        a = total(lambda j: xlogx(to_real(g(i, j))), s)
        b = total(lambda j: xlogx(1 - to_real(g(i, j))), s)
        link_sums()
        prove('the average binary entropy of the row', to_real(r.at(i)) * to_real(s.t) == -a - b)
        prove('the probabilities are unchanged', same_array(P, P0))
    us.append(Unit(E, 'EntropyReductionLearner.__compute_average_entropy', d_average))

    def d_rank():
        M, st = learner(E, [])
        o = M.EntropyReductionLearner(n_samples=st['ns'])
        c = ctx()
        c.infinity = c.const('infinity', Real)
        n, d, s = size('n', 1), size('d', 1), size('s', 1)
        S, X = mat('S', s, d), mat('X', n, d)
        S0, X0 = S.copy(), X.copy()
        data = Obj('data', [], training_set=lambda get_partial=False: (mat('T', size('t', 1), d), None), sample=lambda m=None: S)
        o.fit_data(data)
        entr = []

        def avg(P):
            P = toarr(P)
            v = vec('entropy', P.shape[0])
            entr.append((P.copy(), v.copy()))
            return v
        restub(o, 'compute_average_entropy', avg)
        r = toarr(o.rank(X))
        prove('the probabilities of the given points are asked once', z3.BoolVal(len(st['proba']) == 1))
        prove('of these points', same_array(st['proba'][0][0], X0))
        p = st['proba'][0][1].reader()
        rr = r.reader()
        cut = lambda i: If(p(i) >= HALF, p(i) - HALF, HALF - p(i))
        prove('one rank per point', dterm(r.shape[0]) == n.t)
        prove('the points are unchanged', And(same_array(X, X0), same_array(S, S0)))
        i, e = c.const('i', Int), c.const('e', Int)
        assume(i >= 0, i < n.t)
        if not st['all']:
            prove('no point cuts the version space', Implies(forall(0, n.t, lambda k: And(p(k) >= 0, p(k) <= 1), lambda k: [p(k)]), forall(0, n.t, lambda k: cut(k) == HALF)))
            prove('then all points rank the same', forall(0, n.t, lambda k: rr(k) == 0))
            cover('no cut')
            return
        cover('cut')
        prove('the votes on the candidates and on the sample', z3.BoolVal(len(st['all']) == 2 and len(entr) == 2))
        (Q, H), (Z, G) = st['all']
        if dterm(Q.shape[0]).eq(s.t):
            (Q, H), (Z, G) = (Z, G), (Q, H)
        prove('the sample taken at the last fit', same_array(Z, S0))
        q, h, g = Q.reader(), H.reader(), G.reader()
        best = forall(0, n.t, lambda k: cut(i) <= cut(k))
        prove('points that cut less than the best one are never chosen', Implies(Not(best), rr(i) == c.infinity))
        assume(best)
        m = dterm(Q.shape[0])
        sels = [v[0] for k, v in c.memo.items() if isinstance(k, tuple) and k[:1] == ('sel',) and dterm(v[1]).eq(m)]
        if len(sels) != 1:
            c.unsupported('the candidates are not a masked selection of the points')
        sel = sels[0]
        rx = X0.reader()
        k, j = c.const('k', Int), c.const('j', Int)
        assume(k >= 0, k < m, sel(k) == i)
        prove('the candidates are points that cut best', forall(0, m, lambda a: And(sel(a) >= 0, sel(a) < n.t, forall(0, n.t, lambda b: cut(sel(a)) <= cut(b)))))
        prove('with their own rows', forall2(m, d.t, lambda a, b: q(a, b) == rx(sel(a), b)))
        prove('all of them, once', And(forall(0, n.t, lambda a: Implies(forall(0, n.t, lambda b: cut(a) <= cut(b)), Exists([Int], lambda b: And(b >= 0, b < m, sel(b) == a)))),
                                       forall2(m, m, lambda a, b: Implies(sel(a) == sel(b), a == b))))
        ns = to_real(st['ns'].t)
        pos = total(lambda t: to_real(h(t, k)), st['ns'])
        # contract of the classifier (C15): the probability of a point is the share of its votes
        assume(to_real(p(i)) * ns == pos)
        both = total(lambda t: to_real(h(t, k)) * to_real(g(t, j)), st['ns'])
        al = total(lambda t: to_real(g(t, j)), st['ns'])
        assume(j >= 0, j < s.t)
        link_sums()
        (A, va), (B, vb) = entr
        ra, rb, ea, eb = A.reader(), B.reader(), va.reader(), vb.reader()
        prove('not all hypotheses vote the same on a candidate', And(pos != 0, pos != ns))
        isp = lambda f: to_real(f(k, j)) * pos == both
        isn = lambda f: to_real(f(k, j)) * (ns - pos) == al - both
        pp = to_real(p(i))
        one = And(isp(ra), isn(rb), to_real(rr(i)) == to_real(ea(k)) * pp + to_real(eb(k)) * (1 - pp))
        two = And(isp(rb), isn(ra), to_real(rr(i)) == to_real(eb(k)) * pp + to_real(ea(k)) * (1 - pp))
        prove('the votes on the sample of the hypotheses that vote positive on the candidate, and of the others', Or(And(isp(ra), isn(rb)), And(isp(rb), isn(ra))))
        prove('the expected entropy after labeling the candidate', Or(one, two))
    us.append(Unit(E, 'EntropyReductionLearner.rank', d_rank))

    # -------------------------------------------------------------------------------------------- margin strategies
    class Svc(Opq):
        """arbitrary support vector machine; calls recorded"""

        def __init__(self, *a, **k):
            self._pv_kw, self._pv_log = k, []

        def __pvclone__(self):
            c = Svc(**self._pv_kw)
            c._pv_origin = self
            return c

        def fit(self, X, y, sample_weight=None):
            X, y = toarr(X), toarr(y)
            self._pv_nsv = size('nsv', 1)
            self.support_vectors_ = mat('SV', self._pv_nsv, X.shape[1])
            self.dual_coef_ = mat('dual', 1, self._pv_nsv)
            self.classes_ = vec('classes', 2)
            self._pv_log.append(('fit', X.copy(), y.copy(), sample_weight, self.support_vectors_.copy(), self.dual_coef_.copy(), self._pv_nsv))
            return self

        def decision_function(self, X):
            X = toarr(X)
            v = vec('decision', X.shape[0])
            self._pv_log.append(('decision', X.copy(), v.copy(), len(fits(self))))
            return v

    def fits(s):
        return [x for x in s._pv_log if x[0] == 'fit']

    def dec(s):
        return [x for x in s._pv_log if x[0] == 'decision']

    def margin(E, cls):
        M = E.load('aideme.active_learning.margin')
        swap(M, 'SVC', Svc)
        o = getattr(M, cls)(C=3., kernel='poly', gamma=.5)
        n, d = size('n', 1), size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        return M, o, n, d, X, y

    def d_simple():
        M, o, n, d, X, y = margin(E, 'SimpleMargin')
        k = o.clf._pv_kw
        prove('the parameters of the machine', z3.BoolVal(k.get('C') == 3. and k.get('kernel') == 'poly' and k.get('gamma') == .5))
        X0, y0 = X.copy(), y.copy()
        o.fit(X, y)
        f = fits(o.clf)
        prove('fitted once on the labeled points', And(z3.BoolVal(len(f) == 1 and f[0][3] is None), same_array(f[0][1], X0), same_array(f[0][2], y0)))
        m = size('m')
        Q = mat('Q', m, d)
        Q0 = Q.copy()
        r = toarr(o.rank(Q))
        q = dec(o.clf)
        prove('one decision value per point', And(z3.BoolVal(len(q) == 1), same_array(q[0][1], Q0)))
        g, v = r.reader(), q[0][2].reader()
        prove('one rank per point', dterm(r.shape[0]) == m.t)
        prove('rank is the distance to the decision boundary', forall(0, m.t, lambda i: g(i) == If(v(i) >= 0, v(i), -v(i))))
        pr = toarr(o.predict_proba(Q))
        q = dec(o.clf)
        prove('probability of the same points', And(z3.BoolVal(len(q) == 2), same_array(q[1][1], Q0), dterm(pr.shape[0]) == m.t))
        v = q[1][2].reader()
        i = ctx().const('i', Int)
        assume(i >= 0, i < m.t)
        prove('probability is the logistic function of the decision value', to_real(pr.at(i)) == funcs.expit(v(i)))
        prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0), same_array(Q, Q0)))
    us.append(Unit(E, 'SimpleMargin', d_simple))

    def trained():
        M, o, n, d, X, y = margin(E, 'RatioMargin')
        X0, y0 = X.copy(), y.copy()
        o.fit(X, y)
        f = fits(o.clf)
        prove('fitted once on the labeled points', And(z3.BoolVal(len(f) == 1 and f[0][3] is None), same_array(f[0][1], X0), same_array(f[0][2], y0)))
        prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0)))
        # any state reached by earlier queries: the last training row is arbitrary
        x, y_ = vec('last', d), symreal('lastlabel')
        o.X_train[-1] = x
        o.y_train[-1] = y_
        return M, o, n, d, X0, y0

    def d_ratio():
        M, o, n, d, X0, y0 = trained()
        c = ctx()
        clf = Svc()
        helper = None
        for k in vars(type(o)):
            if k.endswith('__compute_margin_ratio'):
                helper = getattr(o, k)
        if helper is None:
            c.unsupported('no helper of this name')
        x = vec('x', d)
        x0 = x.copy()
        v = helper(clf, x)
        f, q = fits(clf), dec(clf)
        prove('the fitted machine is left alone', z3.BoolVal(len(fits(o.clf)) == 1 and not dec(o.clf)))
        prove('one machine for each class', z3.BoolVal(len(f) == 2 and len(q) == 2 and q[0][3] == 1 and q[1][3] == 2))
        cl = o.clf.classes_.reader()
        rx, ry, r0 = X0.reader(), y0.reader(), x0.reader()
        for k in (0, 1):
            _, Z, z, w = f[k][:4]
            gz, gl = Z.reader(), z.reader()
            prove('machine %d: the labeled points and the candidate' % k, And(dterm(Z.shape[0]) == n.t + 1, dterm(z.shape[0]) == n.t + 1, dterm(Z.shape[1]) == d.t, z3.BoolVal(w is None)))
            prove('machine %d: the labeled points with their labels' % k, And(forall2(n.t, d.t, lambda i, j: gz(i, j) == rx(i, j)), forall(0, n.t, lambda i: gl(i) == ry(i))))
            prove('machine %d: the candidate' % k, forall(0, d.t, lambda j: gz(n.t, j) == r0(j)))
        l0, l1 = f[0][2].at(n.t), f[1][2].at(n.t)
        zero, one = cl(z3.IntVal(0)), cl(z3.IntVal(1))
        prove('the candidate with either class', Or(And(l0 == zero, l1 == one), And(l0 == one, l1 == zero)))
        prove('the candidate is unchanged', same_array(x, x0))
        mg = []
        for k in (0, 1):
            sv, du, ns = f[k][4:]
            prove('machine %d: decision values of its support vectors' % k, same_array(q[k][1], sv))
            a, b = du.reader(), q[k][2].reader()
            mg.append(total(lambda j, a=a, b=b: to_real(a(z3.IntVal(0), j)) * to_real(b(j)), ns))
        equate_sums(z3.IntVal(0))
        if isinstance(v, float):
            prove('no ratio only when a margin is not positive', And(z3.BoolVal(v == float('inf')), Or(mg[0] <= 0, mg[1] <= 0)))
            cover('none')
            return
        t = to_real(t_(v))
        prove('a ratio only of positive margins', And(mg[0] > 0, mg[1] > 0))
        lo, hi = If(mg[0] <= mg[1], mg[0], mg[1]), If(mg[0] <= mg[1], mg[1], mg[0])
        prove('the smaller margin over the larger one', t * hi == lo)
        cover('ratio')
    us.append(Unit(E, 'RatioMargin.__compute_margin_ratio', d_ratio))

    def d_ratio_rank():
        M, o, n, d, X0, y0 = trained()
        c = ctx()
        seen = []
        fr = c.func('ratio', Int, Real)
        m = size('m')
        Q = mat('Q', m, d)
        Q0 = Q.copy()

        def helper(clf, x):
            seen.append(clf)
            return wrap(x_ratio(x))

        def x_ratio(x):
            # an arbitrary function of the row: identified by its entries
            g = toarr(x).reader()
            return total(lambda j: c.func_named('w', j) * to_real(g(j)), d)
        w = c.func('w', Int, Real)
        c.func_named = lambda nm, j: w(j)
        restub(o, 'compute_margin_ratio', helper)
        r = toarr(o.rank(Q))
        prove('the fitted machine is left alone', z3.BoolVal(len(fits(o.clf)) == 1 and not dec(o.clf)))
        prove('the biased machines are copies', z3.BoolVal(all(k is not o.clf and getattr(k, '_pv_origin', None) is o.clf for k in seen)))
        i = c.const('i', Int)
        assume(i >= 0, i < m.t)
        q = Q0.reader()
        t = total(lambda j: w(j) * to_real(q(i, j)), d)
        link_sums()
        prove('one rank per point', dterm(r.shape[0]) == m.t)
        prove('the larger the ratio of a point, the lower its rank', to_real(r.at(i)) == -t)
        prove('the points are unchanged', same_array(Q, Q0))
    us.append(Unit(E, 'RatioMargin.rank', d_ratio_rank))
    return us
