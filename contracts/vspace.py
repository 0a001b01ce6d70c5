"""Contracts of the version-space learners (C15) and of the Laplace learners (C29)."""
from pyvc.reduce import equate_sums, link_sums, reduce1, sum_rule
from pyvc import funcs

import math

from .common import *
from .explore import bound, Obj, prop, raised
from .kernels import total
from .small import Clf, HALF, spy

FUNCTIONS = {
    'C15': ['BayesianLogisticRegressionBase.*', 'DeterministicLogisticRegression.*', 'StanBayesianLogisticRegression._likelihood',
            'KernelBayesianLogisticRegression.*', 'VersionSpaceBase.*', 'LinearVersionSpace.__init__', 'KernelVersionSpace.__init__',
            'UncertaintySampler.*', 'HitAndRunSampler.__init__', 'HitAndRunSampler.sample (signs)'],
    'C29': ['LaplaceBayesianLogisticRegressionBase.*', 'LaplaceBayesianLogisticRegression.*', 'KernelLaplaceBayesianLogisticRegression.*'],
}
ASSUMPTIONS = {
    'C15': ['the sampler returns an arbitrary matrix of the requested number of hypotheses (its own guarantees: C14)',
            'scipy cholesky/solve_triangular with overwrite work in place on the transposed C-ordered matrix',
            'a finite sum depends only on its terms (extensionality)'],
    'C29': ['scipy minimize returns an arbitrary point with a success flag (convergence is not claimed)',
            'scipy cholesky/solve_triangular: the factor and the solution of the triangular system (values arbitrary, arguments checked)',
            'the normal distribution function is strictly increasing, one half at zero; calculus: d log(1+exp(m)) = expit(m)',
            'kernel version: the posterior variance is not negative (kernels with unit diagonal)',
            'a finite sum depends only on its terms (extensionality)'],
}


class Sampler(Opq):
    """arbitrary hypotheses, calls recorded"""

    def __init__(self, *a, **k):
        self._pv_args, self._pv_kw, self._pv_calls, self._pv_cleared = a, k, [], 0

    def sample(self, X, y, n):
        X = toarr(X)
        S = mat('S', n, X.shape[1])
        self._pv_calls.append((X.copy(), y, n, S.copy()))
        return S

    def clear(self):
        self._pv_cleared += 1


def units_C15(E):
    us = []
    LIN, KER = 'aideme.active_learning.version_space.linear', 'aideme.active_learning.version_space.kernel'

    def d_linear(which):
        def drv():
            if which == 'stan':
                M = E.load('aideme.active_learning.version_space.bayesian.linear')
                real = M.StanLogisticRegressionSampler
                swap(M, 'StanLogisticRegressionSampler', Sampler)
                opts = dict(warmup=17, thin=3, prior='cauchy', prior_std=7.5, suppress_warnings=False)
                cls = M.StanBayesianLogisticRegression
            else:
                M = E.load(LIN)
                real = M.HitAndRunSampler
                swap(M, 'HitAndRunSampler', Sampler)
                ch = ctx().choose(2) == 1
                opts = dict(single_chain=not ch, warmup=17, thin=3, cache_samples=ch, rounding=True, rounding_cache=not ch, rounding_options={'strategy': 'opt'})
                cls = M.DeterministicLogisticRegression
            c = ctx()
            ns = size('samples', 1)
            bias = bool(c.choose(2))
            o = cls(n_samples=ns, add_intercept=bias, **opts)
            s = o.sampler
            given = bound(real, (s, s._pv_args, s._pv_kw))
            for q, v in opts.items():
                prove('the sampler gets the given %s' % q, z3.BoolVal(q in given and given[q] is v))
            n, m, d = size('n', 1), size('m'), size('d', 1)
            X, y, Q = mat('X', n, d), vec('y', n), mat('Q', m, d)
            X0, y0, Q0 = X.copy(), y.copy(), Q.copy()
            o.fit(X, y)
            prove('the sampler is asked once', z3.BoolVal(len(s._pv_calls) == 1))
            Z, yy, k, S = s._pv_calls[0]
            rz, rx, rs, rq = Z.reader(), X0.reader(), S.reader(), Q0.reader()
            prove('for the configured number of hypotheses', t_(k) == ns.t)
            prove('with the labels of the data', same_array(toarr(yy), y0))
            off = 1 if bias else 0
            prove('the points with one constant column when an intercept is fitted', And(dterm(Z.shape[0]) == n.t, dterm(Z.shape[1]) == d.t + off))
            prove('the points themselves', forall2(n.t, d.t, lambda i, j: rz(i, j + off) == rx(i, j)))
            if bias:
                prove('the constant column', forall(0, n.t, lambda i: rz(i, z3.IntVal(0)) == 1))
            p = toarr(o.predict_proba(Q))
            prove('one probability per point', dterm(p.shape[0]) == m.t)
            i = c.const('i', Int)
            assume(i >= 0, i < m.t)
            margin = lambda h: (to_real(rs(h, z3.IntVal(0))) if bias else z3.RealVal(0)) + total(lambda j: to_real(rs(h, z3.simplify(j + off))) * to_real(rq(i, j)), d)
            h = z3.Const('rb0!b', Int)
            if which == 'stan':
                vote = lambda h: funcs.expit(margin(h))
            else:
                vote = lambda h: If(margin(h) > 0, z3.RealVal(1), z3.RealVal(0))
            V = rows_of(ns, vote)
            w = total(lambda h: V(h), ns)
            link_sums()
            prove('the probability is the share of the votes of the hypotheses', to_real(p.at(i)) * to_real(ns.t) == w)
            prove('between zero and one', And(to_real(p.at(i)) >= 0, to_real(p.at(i)) <= 1))
            r = toarr(o.predict(Q))
            link_sums()
            prove('one answer per point', dterm(r.shape[0]) == m.t)
            prove('positive exactly when more than half of them vote positive', to_real(r.at(i)) == If(2 * w > to_real(ns.t), z3.RealVal(1), z3.RealVal(0)))
            prove('predicting asks the sampler nothing', z3.BoolVal(len(s._pv_calls) == 1))
            prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0), same_array(Q, Q0)))
            o.clear()
            prove('a reset resets the sampler', z3.BoolVal(s._pv_cleared == 1))
        return drv
    us.append(Unit(E, 'DeterministicLogisticRegression', d_linear('hard')))
    us.append(Unit(E, 'StanBayesianLogisticRegression', d_linear('stan')))

    def d_sampler():
        M = E.load('aideme.active_learning.version_space.hit_and_run.hit_and_run')
        c = ctx()
        made = []

        def maker(kind, names):
            def f(*a, **k):
                r = Opq()
                made.append((kind, dict(zip(names, a), **k), r))
                return r
            return f
        swap(M, 'single_chain_sampler', maker('single', ('warmup', 'thin')))
        swap(M, 'multiple_chain_sampler', maker('multiple', ('warmup',)))
        swap(M, 'RoundingAlgorithm', maker('rounding', ()))
        single, rnd = bool(c.choose(2)), bool(c.choose(2))
        ro = ({'strategy': 'opt', 'z_cut': True}, None)[c.choose(2)]
        w, t = symint('warmup'), symint('thin')
        o, err = raised(lambda: M.HitAndRunSampler(single_chain=single, warmup=w, thin=t, rounding=rnd, rounding_options=ro), ValueError)
        ok = And(w.t > 0, t.t > 0)
        if err is not None:
            prove('rejected only for a warmup or thinning that is not positive', Not(ok))
            return
        prove('warmup and thinning are positive', ok)
        ch = [m for m in made if m[0] != 'rounding']
        prove('the kind of chain asked for', z3.BoolVal(len(ch) >= 1 and o.chain_sampler is ch[-1][2] and ch[-1][0] == ('single' if single else 'multiple')))
        prove('with the warmup asked for', z3.BoolVal(ch[-1][1].get('warmup') is w))
        if single:
            prove('with the thinning asked for', z3.BoolVal(ch[-1][1].get('thin') is t))
        rs = [m for m in made if m[0] == 'rounding']
        if rnd:
            prove('the rounding asked for', z3.BoolVal(len(rs) >= 1 and o.rounding_algorithm is rs[-1][2] and rs[-1][1] == (ro or {})))
        else:
            prove('no rounding', z3.BoolVal(o.rounding_algorithm is None))
        cover('built')
    us.append(Unit(E, 'HitAndRunSampler.__init__', d_sampler))

    def d_kernel(dec):
        def drv():
            M = E.load(KER)
            c = ctx()
            lin, la = [], []

            class Inner(Opq):
                def fit(self, X, y):
                    lin.append(('fit', toarr(X).copy(), y))

                def clear(self):
                    lin.append(('clear',))

                def _q(self, nm, X):
                    lin.append((nm, toarr(X).copy()))
                    return (nm, len(lin) - 1)

                def predict(self, X):
                    return self._q('predict', X)

                def predict_proba(self, X):
                    return self._q('predict_proba', X)

                def _likelihood(self, X):
                    return self._q('all', X)
            asked = []

            class Ker(Opq):
                def __init__(self, inc=None):
                    self._pv_inc = inc

                def __call__(self, X, Y=None):
                    X = toarr(X)
                    K = mat('K', X.shape[0], (X if Y is None else toarr(Y)).shape[0])
                    asked.append(('compute', X, Y, K.copy(), self))
                    return K

                def diagonal(self, X):
                    X = toarr(X)
                    D = vec('D', X.shape[0])
                    asked.append(('diagonal', X, None, D.copy(), self))
                    return D
            base, wrapped, named = Ker(), [], []

            class KF:
                @staticmethod
                def get(kernel, **kw):
                    named.append((kernel, kw))
                    return base

            def IDK(k, jitter):
                wrapped.append((k, jitter))
                return Ker(k)
            swap(M, 'Kernel', KF)
            swap(M, 'IncrementedDiagonalKernel', IDK)

            def cholesky(a, lower=False, overwrite_a=False, check_finite=True):
                a = toarr(a)
                if not overwrite_a or lower:
                    c.unsupported('another form of cholesky')
                la.append(('chol', a.copy()))
                L = mat('L', a.shape[0], a.shape[1])
                la.append(('L', L.copy()))
                a[:, :] = L.T
                return a

            def solve(a, b, lower=False, trans=0, overwrite_b=False, unit_diagonal=False, check_finite=True):
                a, b = toarr(a), toarr(b)
                if not overwrite_b:
                    c.unsupported('another form of solve_triangular')
                Z = mat('Z', b.shape[0], b.shape[1])
                la.append(('solve', a.copy(), b.copy(), lower, trans, unit_diagonal, Z.copy()))
                b[:, :] = Z
                return b
            lg = M.scipy.linalg
            for nm, f in (('cholesky', cholesky), ('solve_triangular', solve)):
                old = getattr(lg, nm)
                setattr(lg, nm, f)
                c.undo.append(lambda nm=nm, old=old: setattr(lg, nm, old))
            g, deg, c0, jit = symreal('gamma'), symint('degree'), symreal('coef0'), symreal('jitter')
            o = M.KernelBayesianLogisticRegression(Inner(), dec, jit, 'poly', g, deg, c0)
            k, kw = named[0]
            prove('the named kernel with the given parameters', z3.BoolVal(len(named) == 1 and k == 'poly' and kw.get('gamma') is g and kw.get('degree') is deg and kw.get('coef0') is c0))
            prove('incremented by the jitter exactly when decomposed', z3.BoolVal(len(wrapped) == (1 if dec else 0) and (not dec or (wrapped[0][0] is base and wrapped[0][1] is jit))))
            K_ = o.kernel
            n, m, d = size('n', 1), size('m'), size('d', 1)
            X, y, Q = mat('X', n, d), vec('y', n), mat('Q', m, d)
            X0, y0, Q0 = X.copy(), y.copy(), Q.copy()
            o.fit(X, y)
            prove('one kernel matrix of the training points', z3.BoolVal(len(asked) == 1 and asked[0][0] == 'compute' and asked[0][4] is K_ and asked[0][1] is X
                                                                        and (asked[0][2] is None or asked[0][2] is X)))
            K = asked[0][3]
            prove('the inner model is fitted once with the labels', z3.BoolVal(len(lin) == 1 and lin[0][0] == 'fit' and lin[0][2] is y))
            F = lin[0][1]
            rf = F.reader()
            if not dec:
                prove('on the kernel matrix', same_array(F, K))
                prove('no decomposition', z3.BoolVal(not la))
            else:
                prove('the transposed kernel matrix is decomposed in place', z3.BoolVal(len(la) == 2 and la[0][0] == 'chol'))
                ra, rk, rl = la[0][1].reader(), K.reader(), la[1][1].reader()
                prove('the kernel matrix is what is decomposed', forall2(n.t, n.t, lambda i, j: ra(i, j) == rk(j, i)))
                prove('on the factor with one empty column', And(dterm(F.shape[0]) == n.t, dterm(F.shape[1]) == n.t + 1))
                prove('the factor', forall2(n.t, n.t, lambda i, j: rf(i, j) == rl(i, j)))
                prove('the empty column', forall(0, n.t, lambda i: rf(i, n.t) == 0))
            del asked[:], lin[:]
            nm, call = [('predict', o.predict), ('predict_proba', o.predict_proba), ('all', o.predict_all)][c.choose(3)]
            r = call(Q)
            prove('the answer of the inner model', z3.BoolVal(len(lin) == 1 and lin[0][0] == nm and r == (nm, 0)))
            F = lin[0][1]
            rf = F.reader()
            q = [x for x in asked if x[0] == 'compute']
            prove('one kernel matrix of the query points against the training points', z3.BoolVal(len(q) == 1 and q[0][4] is K_ and q[0][1] is Q and q[0][2] is not None))
            prove('in this order', same_array(toarr(q[0][2]), X0))
            K = q[0][3]
            if not dec:
                prove('on these kernel values', same_array(F, K))
            else:
                sv = [x for x in la if x[0] == 'solve']
                prove('one triangular system', z3.BoolVal(len(sv) == 1 and sv[0][3] is True and sv[0][4] == 0 and not sv[0][5]))
                _, a, b, _, _, _, Z = sv[0]
                rb, rk, rz = b.reader(), K.reader(), Z.reader()
                prove('with the factor of the training matrix', same_array(a, la[1][1]))
                prove('for the kernel values', And(dterm(b.shape[0]) == n.t, dterm(b.shape[1]) == m.t, forall2(n.t, m.t, lambda i, j: rb(i, j) == rk(j, i))))
                dg = [x for x in asked if x[0] == 'diagonal']
                prove('one diagonal of the query points', z3.BoolVal(len(dg) == 1 and dg[0][1] is Q and dg[0][4] is K_))
                rd = dg[0][3].reader()
                prove('one row per query point', And(dterm(F.shape[0]) == m.t, dterm(F.shape[1]) == n.t + 1))
                prove('solved values', forall2(m.t, n.t, lambda i, j: rf(i, j) == rz(j, i)))
                i = c.const('i', Int)
                assume(i >= 0, i < m.t)
                w = total(lambda j: to_real(rz(j, i)) * to_real(rz(j, i)), n)
                link_sums()
                e = to_real(rf(i, n.t))
                prove('the last column completes the diagonal', Implies(rd(i) - w >= 0, And(e >= 0, e * e == rd(i) - w)))
            prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0), same_array(Q, Q0)))
            del lin[:]
            o.clear()
            prove('a reset resets the inner model', z3.BoolVal(lin == [('clear',)]))
        return drv
    us.append(Unit(E, 'KernelBayesianLogisticRegression[plain]', d_kernel(False)))
    us.append(Unit(E, 'KernelBayesianLogisticRegression[decomposed]', d_kernel(True)))

    def d_learner():
        M = E.load('aideme.active_learning.version_space.base')
        c = ctx()
        made = []

        class Det(Opq):
            def __init__(self, *a, **kw):
                made.append((self, a, kw))

            def clear(self):
                made.append('clear')

        class Kr(Det):
            pass
        swap(M, 'DeterministicLogisticRegression', Det)
        swap(M, 'KernelBayesianLogisticRegression', Kr)
        vals = dict(single_chain=object(), n_samples=object(), warmup=object(), thin=object(), cache_samples=object(), rounding=[True, False][c.choose(2)],
                    rounding_cache=[True, False][c.choose(2)], rounding_options=object(), add_intercept=object())
        if c.choose(2):
            o = M.LinearVersionSpace(**vals)
            prove('one sampled model', z3.BoolVal(len(made) == 1 and o.clf is made[0][0]))
            det = made[0]
            want = vals
        else:
            kv = dict(decompose=[True, False][c.choose(2)], kernel=object(), gamma=object(), degree=object(), coef0=object(), jitter=object())
            o = M.KernelVersionSpace(**vals, **kv)
            prove('a kernel model over a sampled model', z3.BoolVal(len(made) == 2 and o.clf is made[1][0] and isinstance(made[1][0], Kr) and made[1][1][:1] == (made[0][0],)))
            det = made[0]
            rc = vals['rounding_cache'] and vals['rounding']
            want = dict(vals, rounding_cache=rc)
            kw = made[1][2]
            prove('the kernel is configured as given', z3.BoolVal(all(kw.get(k) is kv[k] for k in ('kernel', 'gamma', 'degree', 'coef0', 'jitter'))))
            prove('decomposed as asked, and whenever the rounding is cached', z3.BoolVal(kw.get('decompose') is (kv['decompose'] or rc)))
        kw = det[2]
        for k in want:
            prove('the sampler gets the given %s' % k, z3.BoolVal(k in kw and kw[k] is want[k]))
        o.clear()
        prove('a reset resets the model', z3.BoolVal(made[-1] == 'clear'))
    us.append(Unit(E, 'VersionSpace constructors', d_learner))

    def d_bayes():
        M = E.load('aideme.active_learning.version_space.bayesian.base')
        c = ctx()
        made = []

        class Any(Opq):
            def __init__(self, *a, **kw):
                made.append((self, a, kw))

        class S(Any):
            pass

        class L(Any):
            pass

        class KL(Any):
            pass

        class Kr(Any):
            pass
        for nm, k in (('StanBayesianLogisticRegression', S), ('LaplaceBayesianLogisticRegression', L), ('KernelLaplaceBayesianLogisticRegression', KL),
                      ('KernelBayesianLogisticRegression', Kr)):
            swap(M, nm, k)
        ob = lambda *ns: {n: object() for n in ns}
        vals = ob('n_samples', 'warmup', 'thin', 'add_intercept', 'prior', 'prior_std', 'tol', 'max_iter', 'suppress_warnings')
        kv = ob('kernel', 'gamma', 'degree', 'coef0', 'jitter')
        kern = c.choose(2)
        smp = ['stan', 'laplace', 'kernel-laplace', 'other'][c.choose(4)]
        cls, extra = (M.BayesianKernelVersionSpace, kv) if kern else (M.BayesianLinearVersionSpace, {})
        o, err = raised(lambda: cls(sampler=smp, **vals, **extra), ValueError)
        ok = smp in ('stan', 'laplace') or (kern and smp == 'kernel-laplace')
        prove('unknown samplers are rejected, known ones are not', z3.BoolVal((err is None) == ok))
        if not ok:
            return
        a = made[0]
        prove('the chosen model', z3.BoolVal(type(a[0]) is {'stan': S, 'laplace': L, 'kernel-laplace': KL}[smp]))
        need = {'stan': ('n_samples', 'warmup', 'thin', 'add_intercept', 'prior', 'prior_std', 'suppress_warnings'),
                'laplace': ('prior', 'prior_std', 'add_intercept', 'tol', 'max_iter'), 'kernel-laplace': ('prior_std', 'tol', 'max_iter')}[smp]
        for k in need:
            prove('configured with the given %s' % k, z3.BoolVal(a[2].get(k) is vals[k]))
        if kern:
            b = made[1]
            prove('a kernel model over it', z3.BoolVal(len(made) == 2 and o.clf is b[0] and type(b[0]) is Kr and b[1][:1] == (a[0],) and b[2].get('decompose') is False))
            for k in kv:
                prove('kernel configured with the given %s' % k, z3.BoolVal(b[2].get(k) is kv[k]))
        else:
            prove('used directly', z3.BoolVal(len(made) == 1 and o.clf is a[0]))
    us.append(Unit(E, 'Bayesian version space constructors', d_bayes))

    def d_rank():
        M = E.load('aideme.active_learning.version_space.base')
        cl = Clf()
        o = M.VersionSpaceBase(cl)
        n, d = size('n'), size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        o.fit(X, y)
        prove('fits its model on the given data', z3.BoolVal(len(cl.calls('fit')) == 1))
        prove('the data of the fit', And(same_array(cl.calls('fit')[0][1], X), same_array(cl.calls('fit')[0][2], y)))
        r = toarr(o.rank(X))
        q = cl.calls('predict_proba')
        prove('ranks by one probability query', z3.BoolVal(len(q) == 1))
        rr, p = r.reader(), q[0][2].reader()
        prove('distance of the fraction from one half', And(dterm(r.shape[0]) == n.t, forall(0, n.t, lambda i: rr(i) == If(p(i) >= HALF, p(i) - HALF, HALF - p(i)))))
        prove('its own predictions', And(same_array(toarr(o.predict(X)), cl.calls('predict')[0][2]), same_array(toarr(o.predict_proba(X)), cl.calls('predict_proba')[-1][2])))
    us.append(Unit(E, 'VersionSpaceBase', d_rank))

    def d_signs():
        M = E.load('aideme.active_learning.version_space.hit_and_run.hit_and_run')
        seen, stop = [], type('Stop', (Exception,), {})

        def Cone(A):
            seen.append(toarr(A).copy())
            raise stop()
        o = M.HitAndRunSampler(rounding=False)
        swap(M, 'BoundedPolyhedralCone', Cone)
        n, d = size('n', 1), size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        X0, y0 = X.copy(), y.copy()
        raised(lambda: o.sample(X, y, 3), stop)
        prove('one cone of constraints', z3.BoolVal(len(seen) == 1))
        a, rx, ry = seen[0].reader(), X0.reader(), y0.reader()
        prove('one constraint per labeled point', And(dterm(seen[0].shape[0]) == n.t, dterm(seen[0].shape[1]) == d.t))
        prove('positive points require a positive margin, all others a negative one', forall2(n.t, d.t, lambda i, j: a(i, j) == If(ry(i) == 1, -rx(i, j), rx(i, j))))
        prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0)))
    us.append(Unit(E, 'HitAndRunSampler.sample: signs', d_signs))
    return us


# ------------------------------------------------------------------------------------------------ C29
_cdf = z3.Function('normcdf', Real, Real)


def norm_stub(*a):
    """scipy.stats.norm: strictly increasing distribution function, one half at zero"""
    c = ctx()
    if [t_(x) if not isinstance(x, (int, float)) else x for x in a] not in ([0, 1], [], [0]):
        c.unsupported('a normal distribution that is not standard')

    class N(Opq):
        def cdf(self, x):
            from pyvc.arrays import elementwise
            if 'normcdf' not in c.memo:
                c.memo['normcdf'] = True
                c.assume(_cdf(z3.RealVal(0)) == HALF)
                c.assume(Forall([Real, Real], lambda a, b: Implies(a < b, _cdf(a) < _cdf(b)), lambda a, b: [z3.MultiPattern(_cdf(a), _cdf(b))]))
                c.assume(Forall([Real], lambda a: And(_cdf(a) > 0, _cdf(a) < 1), lambda a: [_cdf(a)]))
            return elementwise(lambda t: _cdf(to_real(t)), [toarr(x)], 'real')
    return N()


def units_C29(E):
    us = []
    LAP = 'aideme.active_learning.version_space.bayesian.laplace'

    def setup(kernel, ask=None):
        M = E.load(LAP)
        c = ctx()
        swap(M, 'norm', norm_stub)
        mins, la = [], []

        def minimize(fun, x0, **kw):
            x0 = toarr(x0)
            res = Obj('res', [], success=prop(lambda: ok), x=prop(lambda: xs), status=prop(lambda: status), message=prop(lambda: 'message'))
            ok, xs, status = SymBool(c.const('success', Bool)), vec('map', x0.shape[0]), symint('status')
            assume(status.t >= 0, ok.t == (status.t == 0))
            mins.append((fun, x0, kw, ok, xs.copy(), res))
            if ask:                       # what the optimiser sees when it evaluates the objective at an arbitrary point
                w = vec('w', x0.shape[0])
                ask.append((w, fun(w, *kw.get('args', ()))))
            return res

        def cholesky(a, lower=False, overwrite_a=False, check_finite=True):
            a = toarr(a)
            L = mat('L', a.shape[0], a.shape[1])
            la.append(('chol', a.copy(), lower, L))
            return L

        def solve(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
            a, b = toarr(a), toarr(b)
            for e in la:                  # a function of its arguments
                if e[0] == 'solve' and e[1] is a and e[3:6] == (lower, trans, unit_diagonal) and c.entails(same_array(e[2], b)):
                    la.append(e[:2] + (b.copy(),) + e[3:])
                    return e[6].copy()
            Z = mat('Z', b.shape[0], b.shape[1])
            la.append(('solve', a, b.copy(), lower, trans, unit_diagonal, Z.copy()))
            return Z
        swap(M, 'minimize', minimize)
        swap(M, 'cholesky', cholesky)
        swap(M, 'solve_triangular', solve)
        return M, c, mins, la

    def info_of(o):
        if not hasattr(o, '_info'):
            ctx().unsupported('the representation has no _info')
        return to_real(t_(o._info))

    def weight(o):
        """the weight of the prior, as an arbitrary non-negative number (its value: the unit of the constructor)"""
        info_of(o)
        o._info = symreal('info')
        assume(o._info.t >= 0)
        return o._info.t

    def d_new():
        M, c, mins, la = setup(False)
        std, tol, it = symreal('std'), symreal('tol'), symint('iters')
        pr = ['gaussian', 'improper', 'cauchy'][c.choose(3)]
        o, err = raised(lambda: M.LaplaceBayesianLogisticRegression(pr, std, True, tol, it), ValueError)
        bad = Or(std.t <= 0, tol.t <= 0, it.t <= 0)
        if pr == 'cauchy':
            prove('unknown priors are rejected', z3.BoolVal(err is not None))
            return
        prove('rejected exactly outside the domain', z3.BoolVal(err is not None) == bad)
        if err is None:
            prove('precision of the prior', info_of(o) * (std.t * std.t) == (1 if pr == 'gaussian' else 0) * (std.t * std.t) / (std.t * std.t) * (1 if pr == 'improper' else 1)
                  if pr == 'gaussian' else info_of(o) == 0)
    us.append(Unit(E, 'LaplaceBayesianLogisticRegressionBase.__init__', d_new))

    def dataset(c, square=False):
        n = size('n', 1)
        d = n if square else size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        return n, d, X, y

    def d_fit(kernel, aspect):
        def drv():
            ask = [None] if aspect == 'objective' else None
            M, c, mins, la = setup(kernel, ask)
            n, d, X, y = dataset(c, kernel)
            std = symreal('std')
            assume(std.t > 0)
            if kernel:
                o, bias = M.KernelLaplaceBayesianLogisticRegression(std), False
                K0 = X.copy()
                rk = K0.reader()
                assume(forall2(n.t, n.t, lambda i, j: rk(i, j) == rk(j, i)))
            else:
                bias = bool(c.choose(2))
                o = M.LaplaceBayesianLogisticRegression(['gaussian', 'improper'][c.choose(2)], std, bias)
            info = weight(o)
            X0, y0 = X.copy(), y.copy()
            rx, ry = X0.reader(), y0.reader()
            _, err = raised(lambda: o.fit(X, y), RuntimeError)
            prove('one optimisation', z3.BoolVal(len(mins) == 1))
            fun, x0, kw, ok, xs, res = mins[0]
            if err is not None:
                prove('an error only when the optimisation failed', Not(ok.t))
                return
            prove('a failed optimisation is an error', ok.t)
            off = 1 if bias else 0
            prove('one weight per column', dterm(x0.shape[0]) == d.t + off)
            prove('the learned weights are the optimum', same_array(toarr(o._mean), xs))
            x = (lambda i, j: If(j == 0, z3.RealVal(1), rx(i, j - 1))) if bias else rx
            dd = dim_wrap(z3.simplify(d.t + off))
            # the objective is the negative log posterior, with its gradient
            if aspect == 'objective':
                w, (loss, grad) = ask[1]
                rw = w.reader()
                prove('the optimiser is told that the gradient comes along', z3.BoolVal(kw.get('jac') is True))
                sg = lambda i: If(ry(i) == 1, z3.RealVal(-1), z3.RealVal(1))
                marg = rows_of(n, lambda i: total(lambda j: to_real(x(i, j)) * to_real(rw(j)), dd))
                if kernel:
                    sm = lambda i: marg(i) * sg(i)
                else:
                    sm = rows_of(n, lambda i: total(lambda j: to_real(x(i, j)) * sg(i) * to_real(rw(j)), dd))
                nll = total(lambda i: funcs.log(funcs.exp(z3.RealVal(0)) + funcs.exp(sm(i))), n)
                if kernel:
                    reg = total(lambda j: to_real(rw(j)) * marg(j), n)
                else:
                    reg = total(lambda j: to_real(rw(j)) * to_real(rw(j)), dd)
                equate_sums()
                prove('the objective is the negative log likelihood plus the prior', to_real(t_(loss)) == nll + HALF * info * reg)
                j = c.const('j', Int)
                assume(j >= 0, j < dterm(dd))
                g = toarr(grad)
                gl = total(lambda i: to_real(x(i, j)) * sg(i) * funcs.expit(sm(i)), n)
                equate_sums(j)
                prove('one derivative per weight', dterm(g.shape[0]) == dterm(dd))
                if kernel:
                    prove('the gradient is its derivative', to_real(g.at(j)) == gl + info * marg(j))
                else:
                    prove('the gradient is its derivative', to_real(g.at(j)) == gl + info * rw(j))
                return
            ch = [e for e in la if e[0] == 'chol']
            prove('one factorisation', z3.BoolVal(len(ch) == 1))
            H = ch[0][1]
            rh, rw = H.reader(), xs.reader()
            a, b = c.const('a', Int), c.const('b', Int)
            assume(a >= 0, a < dterm(dd), b >= 0, b < dterm(dd))
            if c.choose(2):
                b = a
            else:
                assume(a != b)
            marg = rows_of(n, lambda i: total(lambda j: to_real(x(i, j)) * to_real(rw(j)), dd))
            pq = lambda i: funcs.expit(marg(i)) * (1 - funcs.expit(marg(i)))
            if kernel:
                equate_sums(a, b)
                sq = lambda i: funcs.sqrt(pq(i))
                prove('the factorised matrix', to_real(rh(a, b)) == sq(a) * to_real(rx(a, b)) * sq(b) + If(a == b, info, z3.RealVal(0)))
            else:
                s = total(lambda i: pq(i) * to_real(x(i, a)) * to_real(x(i, b)), n)
                equate_sums(a, b)
                eps = to_real(t_(1e-12))
                ridge = If(info >= eps, info, eps)
                prove('the factorised matrix is the Hessian of the objective', to_real(rh(a, b)) == s + If(a == b, ridge, z3.RealVal(0)))
            prove('the data are unchanged', And(same_array(X, X0) if not kernel else z3.BoolVal(True), same_array(y, y0)))
        return drv
    for asp in ('objective', 'hessian'):
        us.append(Unit(E, 'LaplaceBayesianLogisticRegression.fit[%s]' % asp, d_fit(False, asp)))
        us.append(Unit(E, 'KernelLaplaceBayesianLogisticRegression.fit[%s]' % asp, d_fit(True, asp)))

    def d_predict(kernel):
        def drv():
            M, c, mins, la = setup(kernel)
            std = symreal('std')
            assume(std.t > 0)
            n, m = size('n', 1), size('m')
            d = n if kernel else size('d', 1)
            bias = False
            if kernel:
                o = M.KernelLaplaceBayesianLogisticRegression(std)
            else:
                bias = bool(c.choose(2))
                o = M.LaplaceBayesianLogisticRegression('gaussian', std, bias)
            info = weight(o)
            assume(info > 0)
            X, y = mat('X', n, d), vec('y', n)
            _, err = raised(lambda: o.fit(X, y), RuntimeError)
            if err is not None:
                return
            off = 1 if bias else 0
            dd = dim_wrap(z3.simplify(d.t + off))
            Q = mat('Q', m, d)
            Q0 = Q.copy()
            rq, rw = Q0.reader(), mins[0][4].reader()
            C = o.C.copy() if kernel else None
            p = toarr(o.predict_proba(Q))
            q = (lambda i, j: If(j == 0, z3.RealVal(1), rq(i, j - 1))) if bias else rq
            ch = [e for e in la if e[0] == 'chol'][0]
            sv = [e for e in la if e[0] == 'solve']
            prove('one triangular system', z3.BoolVal(len(sv) == 1))
            _, A, B, lower, trans, unit, Z = sv[0]
            prove('with the factor computed in the fit', same_array(A, ch[3]))
            prove('the lower factor, solved as such', z3.BoolVal((bool(ch[2]), bool(lower), trans in (0, 'N'), bool(unit)) in ((True, True, True, False), (False, False, False, False))))
            rb, rz = B.reader(), Z.reader()
            cj = (lambda j: to_real(C.reader()(j))) if kernel else (lambda j: z3.RealVal(1))
            prove('for the query points', And(dterm(B.shape[0]) == dterm(dd), dterm(B.shape[1]) == m.t, forall2(dterm(dd), m.t, lambda j, i: rb(j, i) == to_real(q(i, j)) * cj(j))))
            i = c.const('i', Int)
            assume(i >= 0, i < m.t)
            mu = total(lambda j: to_real(q(i, j)) * to_real(rw(j)), dd)
            zz = total(lambda j: to_real(rz(j, i)) * to_real(rz(j, i)), dd)
            equate_sums(i)
            var = (1 - zz) / info if kernel else zz
            if kernel:
                assume(var >= 0)        # a variance; holds for kernels with unit diagonal
            s = funcs.sqrt(var + to_real(t_(8 / math.pi)))
            prove('one probability per point', dterm(p.shape[0]) == m.t)
            prove('probability of the averaged hypothesis', to_real(p.at(i)) == _cdf(mu / s))
            r = toarr(o.predict(Q))
            equate_sums(i)
            prove('positive exactly when the probability exceeds one half', to_real(r.at(i)) == If(_cdf(mu / s) > HALF, z3.RealVal(1), z3.RealVal(0)))
            prove('positive exactly when the mean margin is', (to_real(r.at(i)) == 1) == (mu > 0))
            prove('the query is unchanged', same_array(Q, Q0))
        return drv
    us.append(Unit(E, 'LaplaceBayesianLogisticRegression.predict', d_predict(False)))
    us.append(Unit(E, 'KernelLaplaceBayesianLogisticRegression.predict', d_predict(True)))
    return us


def rows_of(n, f):
    """the vector of the terms f(0..n-1), built under the engine's canonical bound variable"""
    from pyvc.reduce import _rows
    return _rows([dim_wrap(n.t)], f).reader()


def units(E, prop):
    return globals()['units_' + prop](E)
