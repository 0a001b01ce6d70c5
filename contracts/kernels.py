"""Contracts of the kernels and kernel transformers (C16)."""
from pyvc.reduce import link_sums, reduce1
from pyvc import funcs

from .common import *
from .explore import raised

FUNCTIONS = {
    'C16': ['Kernel.get', 'Kernel.__call__', 'LinearKernel.*', 'GaussianKernel.*', 'PolynomialKernel.*', 'IncrementedDiagonalKernel.*',
            'KernelTransformer.get', 'KernelTransformer.fit_transform', 'KernelTransformerWrapper.*', 'NystroemTransformer.*',
            'FactorizedKernelTransform.*', 'KernelFactorizationLearner.*', 'assert_positive', 'assert_positive_integer'],
}
ASSUMPTIONS = {
    'C16': ['linear_kernel, rbf_kernel, polynomial_kernel of sklearn by their documented formulas; exp and powers uninterpreted with the usual axioms',
            'a finite sum depends only on its terms (extensionality)', 'sklearn Nystroem opaque (delegation only)',
            'the number of subspaces of the factorized transform is enumerated up to three (bounded); data and column choices are unbounded'],
}


def total(f, n):
    """f(0) + ... + f(n-1) over the reals"""
    return reduce1('sum', f, dim_wrap(n.t) if hasattr(n, 't') else n, 'real')


def units_C16(E):
    us = []
    KER = 'aideme.active_learning.kernel'

    def make(M, which):
        """a kernel of the given family with arbitrary valid parameters, and its documented function of two rows"""
        def rows(rx, i, ry, j, d, f):
            return total(lambda k: f(to_real(rx(i, k)), to_real(ry(j, k))), d)
        dot = lambda rx, i, ry, j, d: rows(rx, i, ry, j, d, lambda a, b: a * b)
        if which == 'linear':
            return M.LinearKernel(), dot
        own = ctx().choose(2)
        g = symreal('gamma')
        if own:
            assume(g.t > 0)
        gam = lambda d: g.t if own else 1 / to_real(d.t)
        if which == 'gaussian':
            k = M.GaussianKernel(g if own else None)
            return k, lambda rx, i, ry, j, d: funcs.exp(-gam(d) * rows(rx, i, ry, j, d, lambda a, b: (a - b) * (a - b)))
        deg, c0 = symint('degree'), symreal('coef0')
        assume(deg.t > 0)
        k = M.PolynomialKernel(deg, g if own else None, c0)
        return k, lambda rx, i, ry, j, d: funcs.power(gam(d) * dot(rx, i, ry, j, d) + c0.t, to_real(deg.t))

    def d_formula(which):
        def drv():
            M = E.load(KER)
            k, doc = make(M, which)
            n, m, d = size('n', 1), size('m', 1), size('d', 1)
            X, Y = mat('X', n, d), mat('Y', m, d)
            X0, Y0 = X.copy(), Y.copy()
            rx, ry = X0.reader(), Y0.reader()
            i, j = ctx().const('i', Int), ctx().const('j', Int)
            assume(i >= 0, j >= 0)
            own = ctx().choose(2)
            if own:
                K = toarr(k(X, Y) if ctx().choose(2) else k.compute(X, Y))
                prove('one entry per pair', And(dterm(K.shape[0]) == n.t, dterm(K.shape[1]) == m.t))
                assume(i < n.t, j < m.t)
                w = doc(rx, i, ry, j, d)
                link_sums()
                prove('every entry is the documented function of the two points', to_real(K.at(i, j)) == w)
            else:
                K = toarr(k(X))
                prove('one entry per pair', And(dterm(K.shape[0]) == n.t, dterm(K.shape[1]) == n.t))
                assume(i < n.t, j < n.t)
                w = doc(rx, i, rx, j, d)
                D = toarr(k.diagonal(X))
                prove('one diagonal entry per point', dterm(D.shape[0]) == n.t)
                link_sums()
                a, b = to_real(K.at(i, j)), to_real(K.at(j, i))
                assume(touch(a == 0), touch(b == 0))
                prove('every entry of the own matrix is the documented function', a == w)
                prove('the own matrix is symmetric', a == b)
                prove('the diagonal is the diagonal of the matrix', to_real(D.at(i)) == to_real(K.at(i, i)))
                if which == 'gaussian':
                    prove('similarities lie in (0, 1]', And(a > 0))
            prove('the data are unchanged', And(same_array(X, X0), same_array(Y, Y0)))
        return drv
    for w in ('linear', 'gaussian', 'polynomial'):
        us.append(Unit(E, {'linear': 'LinearKernel', 'gaussian': 'GaussianKernel', 'polynomial': 'PolynomialKernel'}[w], d_formula(w)))

    def d_params():
        M = E.load(KER)
        g, deg = symreal('gamma'), symint('degree')
        k, err = raised(lambda: M.GaussianKernel(g), ValueError)
        prove('gaussian: rejected exactly for bandwidths that are not positive', z3.BoolVal(err is not None) == (g.t <= 0))
        k, err = raised(lambda: M.PolynomialKernel(deg, g), ValueError)
        prove('polynomial: rejected exactly outside the domain', z3.BoolVal(err is not None) == Or(g.t <= 0, deg.t <= 0))
        x = symreal('realdegree')
        k, err = raised(lambda: M.PolynomialKernel(x), ValueError)
        prove('polynomial: the degree must be an integer', z3.BoolVal(err is not None))
        jit = symreal('jitter')
        k, err = raised(lambda: M.IncrementedDiagonalKernel(M.LinearKernel(), jit), ValueError)
        prove('jitter: rejected exactly when not positive', z3.BoolVal(err is not None) == (jit.t <= 0))
    us.append(Unit(E, 'parameter domains', d_params))

    def d_get():
        M = E.load(KER)
        g, deg, c0 = symreal('gamma'), symint('degree'), symreal('coef0')
        assume(g.t > 0, deg.t > 0)
        same = lambda a, b: And(t_(a) == t_(b)) if a is not None else z3.BoolVal(False)
        for nm in ('linear', 'Linear', 'LINEAR'):
            prove('linear by name', z3.BoolVal(type(M.Kernel.get(nm)) is M.LinearKernel))
        for nm in ('rbf', 'gaussian', 'RBF', 'Gaussian'):
            k = M.Kernel.get(nm)
            prove('gaussian by name, default bandwidth', z3.BoolVal(type(k) is M.GaussianKernel and k.gamma is None))
            k = M.Kernel.get(nm, gamma=g)
            prove('gaussian with the given bandwidth', same(k.gamma, g))
        for nm in ('poly', 'Poly'):
            k = M.Kernel.get(nm)
            prove('polynomial by name', z3.BoolVal(type(k) is M.PolynomialKernel and k.gamma is None))
            prove('documented defaults', And(t_(k.degree) == 3, to_real(t_(k.coef0)) == 1))
            k = M.Kernel.get(nm, degree=deg, gamma=g, coef0=c0)
            prove('polynomial with the given parameters', And(same(k.degree, deg), same(k.gamma, g), same(k.coef0, c0)))
        for nm in ('sigmoid', '', 'line', 'polynomials'):
            k, err = raised(lambda: M.Kernel.get(nm), ValueError)
            prove('unknown kernel rejected: %r' % nm, z3.BoolVal(err is not None))
    us.append(Unit(E, 'Kernel.get', d_get))

    class Ker(Opq):
        """an arbitrary kernel: calls recorded, values arbitrary"""

        def __init__(self):
            self._pv_calls = []

        def __call__(self, X, Y=None):
            X = toarr(X)
            K = mat('K', X.shape[0], (X if Y is None else toarr(Y)).shape[0])
            self._pv_calls.append(('compute', X, Y, K.copy()))
            return K
        compute = __call__

        def diagonal(self, X):
            D = vec('D', toarr(X).shape[0])
            self._pv_calls.append(('diagonal', X, None, D.copy()))
            return D

    def d_inc():
        M = E.load(KER)
        base = Ker()
        jit = symreal('jitter')
        assume(jit.t > 0)
        k = M.IncrementedDiagonalKernel(base, jit)
        n, m, d = size('n', 1), size('m', 1), size('d', 1)
        X, Y = mat('X', n, d), mat('Y', m, d)
        way = ctx().choose(4)
        if way == 3:
            D = toarr(k.diagonal(X))
            q = base._pv_calls
            prove('the diagonal of the inner kernel, once, for the given points', z3.BoolVal(len(q) == 1 and q[0][0] == 'diagonal' and q[0][1] is X))
            rd, r0 = D.reader(), q[0][3].reader()
            prove('one entry per point', dterm(D.shape[0]) == n.t)
            prove('every diagonal entry is raised by the jitter', forall(0, n.t, lambda i: rd(i) == r0(i) + jit.t))
            return
        K = toarr(k(X) if way == 0 else k(X, X) if way == 1 else k(X, Y))
        q = base._pv_calls
        prove('the inner kernel is asked once', z3.BoolVal(len(q) == 1 and q[0][0] == 'compute'))
        prove('about the given points', z3.BoolVal(q[0][1] is X and (q[0][2] is Y if way == 2 else q[0][2] is None or q[0][2] is X)))
        r, r0 = K.reader(), q[0][3].reader()
        cols = m.t if way == 2 else n.t
        prove('one entry per pair', And(dterm(K.shape[0]) == n.t, dterm(K.shape[1]) == cols))
        if way == 2:
            prove('other data: no jitter', forall2(n.t, cols, lambda i, j: r(i, j) == r0(i, j)))
        else:
            prove('jitter exactly on the diagonal', forall2(n.t, cols, lambda i, j: r(i, j) == r0(i, j) + If(i == j, jit.t, z3.RealVal(0))))
    us.append(Unit(E, 'IncrementedDiagonalKernel', d_inc))

    def d_tget():
        M = E.load(KER)
        made = []

        class Nys(Opq):
            def __init__(self, **kw):
                made.append(kw)
                self._pv_kw, self._pv_calls, self.n_components = kw, [], kw.get('n_components')

            def __pvclone__(self):
                return Nys(**self._pv_kw)

            def fit(self, X):
                self._pv_calls.append(('fit', X))
                return self

            def transform(self, X):
                a = mat('N', toarr(X).shape[0], 7)
                self._pv_calls.append(('transform', X, a))
                return a

            def fit_transform(self, X):
                a = mat('N', toarr(X).shape[0], 7)
                self._pv_calls.append(('fit_transform', X, a))
                return a
        swap(M, 'Nystroem', Nys)
        g, deg, c0, jit, nc = symreal('gamma'), symint('degree'), symreal('coef0'), symreal('jitter'), symint('components')
        assume(g.t > 0, deg.t > 0, nc.t > 0)
        n, d = size('n', 1), size('d', 1)
        X = mat('X', n, d)
        if ctx().choose(2):
            t = M.KernelTransformer.get('poly', degree=deg, gamma=g, coef0=c0, jitter=jit, nystroem_components=nc)
            prove('an approximation with the given parameters', z3.BoolVal(len(made) == 1 and set(made[0]) >= {'n_components', 'kernel', 'degree', 'gamma', 'coef0'}))
            kw = made[0]
            prove('its parameters', And(z3.BoolVal(kw['kernel'] == 'poly'), t_(kw['n_components']) == nc.t, t_(kw['degree']) == deg.t, t_(kw['gamma']) == g.t, t_(kw['coef0']) == c0.t))
            prove('as many components as configured', t_(t.n_components) == nc.t)
            cl = t.clone()
            kw = cl.nystroem._pv_kw
            prove('a clone is a separate approximation', z3.BoolVal(cl.nystroem is not t.nystroem and kw['kernel'] == 'poly'))
            prove('with the same parameters', And(t_(kw['n_components']) == nc.t, t_(kw['degree']) == deg.t, t_(kw['gamma']) == g.t, t_(kw['coef0']) == c0.t))
            t.fit(X)
            r = t.transform(X)
            q = t.nystroem._pv_calls
            prove('delegates', z3.BoolVal([x[0] for x in q] == ['fit', 'transform'] and all(x[1] is X for x in q) and r is q[1][2]))
            return
        t = M.KernelTransformer.get('rbf', gamma=g, jitter=jit)
        k = t._kernel
        if isinstance(k, M.IncrementedDiagonalKernel):
            prove('jitter only when positive', jit.t > 0)
            prove('the given jitter', t_(k._jitter) == jit.t)
            k = k._kernel
        else:
            prove('jitter whenever positive', jit.t <= 0)
        prove('the named kernel with the given parameters', And(z3.BoolVal(type(k) is M.GaussianKernel), t_(k.gamma) == g.t))
        k = M.KernelTransformer.get('poly', degree=deg, gamma=g, coef0=c0)._kernel
        prove('the polynomial kernel with the given parameters', And(z3.BoolVal(type(k) is M.PolynomialKernel), t_(k.degree) == deg.t, t_(k.gamma) == g.t, t_(k.coef0) == c0.t))
    us.append(Unit(E, 'KernelTransformer.get', d_tget))

    def d_wrap():
        M = E.load(KER)
        base = Ker()
        t = M.KernelTransformerWrapper(base)
        n, m, d = size('n', 1), size('m', 1), size('d', 1)
        X, Q = mat('X', n, d), mat('Q', m, d)
        ft = ctx().choose(2)
        if ft:
            K = t.fit_transform(X)
        else:
            t.fit(X)
            prove('fitting asks the kernel nothing it needs not', z3.BoolVal(len(base._pv_calls) == 0))
            K = t.transform(X)
        q = base._pv_calls
        prove('one kernel matrix', z3.BoolVal(len(q) == 1 and q[0][0] == 'compute'))
        prove('of the training points with themselves, recognised as such', z3.BoolVal(q[0][1] is X and (q[0][2] is X or q[0][2] is None)))
        prove('returned as it is', same_array(toarr(K), q[0][3]))
        prove('as many components as training points', t_(t.n_components) == n.t)
        R = t.transform(Q)
        q = base._pv_calls
        prove('new points against the training points, in order', And(z3.BoolVal(len(q) == 2 and q[1][1] is Q and q[1][2] is not None), same_array(toarr(q[1][2]), X)))
        prove('returned as it is (new points)', same_array(toarr(R), q[1][3]))
        c = t.clone()
        prove('a clone shares the kernel but not the training points', z3.BoolVal(type(c) is type(t) and c is not t and c._kernel is base and c._X_train is None))
    us.append(Unit(E, 'KernelTransformerWrapper', d_wrap))

    def d_fact(parts):
        def drv():
            M = E.load(KER)
            c = ctx()
            d = size('d', 1)
            n, m = size('n', 1), size('m', 1)
            X, Q = mat('X', n, d), mat('Q', m, d)
            comp = size('components', 1)
            log = []

            class Tr(Opq):
                def __init__(self, no=None):
                    self._pv_no, self._pv_fitted = no, False

                @property
                def n_components(self):
                    if not self._pv_fitted:         # as of a transformer that uses the training points themselves
                        raise AttributeError('not fitted')
                    return comp

                def clone(self):
                    made.append(Tr(len(made)))
                    return made[-1]

                def fit(self, Z):
                    self._pv_fitted = True
                    log.append(('fit', self._pv_no, toarr(Z).copy(), None))

                def transform(self, Z):
                    Z = toarr(Z)
                    a = mat('T', Z.shape[0], comp)
                    log.append(('transform', self._pv_no, Z.copy(), a.copy()))
                    return a

                def fit_transform(self, Z):
                    Z = toarr(Z)
                    self._pv_fitted = True
                    a = mat('T', Z.shape[0], comp)
                    log.append(('fit_transform', self._pv_no, Z.copy(), a.copy()))
                    return a
            made = []
            cols = []
            for s in range(parts):
                w = size('w', 1)
                C = c.func('C', Int, Int)
                assume(Forall([Int], lambda k: And(C(k) >= 0, C(k) < d.t), lambda k: [C(k)]))
                cols.append((w, C, Arr.make((w,), 'int', lambda k, C=C: C(k))))
            base = Tr('base')
            F = M.FactorizedKernelTransform(base, [x[2] for x in cols])
            prove('one separate transformer per subspace', z3.BoolVal(len(made) == parts))
            way = c.choose(2)

            def check(op, Z, nz, out):
                prove('every subspace transformer is used exactly once, the template never: ' + op, z3.BoolVal(sorted(str(x[1]) for x in log) == [str(s) for s in range(parts)]))
                for s in range(parts):
                    e = [x for x in log if x[1] == s][0]
                    w, C, _ = cols[s]
                    rz, re = Z.reader(), e[2].reader()
                    prove('%s: on the columns of its own subspace' % op, And(dterm(e[2].shape[0]) == nz.t, dterm(e[2].shape[1]) == w.t, forall2(nz.t, w.t, lambda i, k: re(i, k) == rz(i, C(k)))))
                    if out is not None:
                        ro, ra = out.reader(), e[3].reader()
                        prove('%s: its values at its own position' % op, forall2(nz.t, comp.t, lambda i, k: ro(i, k, z3.IntVal(s)) == ra(i, k)))
                if out is not None:
                    prove('%s: shape' % op, And(dterm(out.shape[0]) == nz.t, dterm(out.shape[1]) == comp.t, dterm(out.shape[2]) == parts))
                del log[:]
            if way:
                K = F.fit_transform(X)
                prove('fitted and transformed', z3.BoolVal({x[0] for x in log} <= {'fit_transform', 'fit', 'transform'}))
                if any(x[0] != 'fit_transform' for x in log):
                    c.unsupported('fit_transform by separate steps')
                check('fit_transform', X, n, toarr(K))
            else:
                F.fit(X)
                prove('fitted', z3.BoolVal({x[0] for x in log} == {'fit'}))
                check('fit', X, n, None)
            T = F.transform(Q)
            prove('only transformed', z3.BoolVal({x[0] for x in log} == {'transform'}))
            check('transform', Q, m, toarr(T))
            prove('components of a part', t_(F.n_components) == comp.t)
            F2 = F.clone()
            prove('a clone has its own transformers', z3.BoolVal(len(made) == 2 * parts and type(F2) is type(F) and F2 is not F))
            del log[:]
            F2.fit(X)
            prove('fitting a clone fits its own transformers only', z3.BoolVal(len(log) == parts and len({x[1] for x in log}) == parts and not {x[1] for x in log} & set(range(parts))))
        return drv

    def d_learner():
        M = E.load('aideme.active_learning.factorization.kernel')
        c = ctx()
        fits, log = [], []

        class Lin(Opq):
            def __init__(self, **kw):
                self._pv_kw = kw
                made.append(self)

            def fit(self, X, y, factorization, retries=1, x0=None):
                log.append(('fit', X, y, factorization, retries, x0))
                return 'result'

            def _get_loss(self, X, y, *a):
                log.append(('loss', X, y))
                return 'the loss'

            def predict(self, X):
                log.append(('predict', X))
                return ('predict', X)

            def predict_proba(self, X):
                log.append(('predict_proba', X))
                return ('predict_proba', X)

            def partial_proba(self, X):
                log.append(('partial_proba', X))
                return ('partial_proba', X)
        made = []

        class Tr(Opq):
            def __init__(self, base, part=None):
                self._pv_base, self._pv_part, self._pv_calls = base, part, []

            def clone(self):
                t = Tr(self, self._pv_part)
                fits.append(t)
                return t

            def fit(self, X):
                self._pv_calls.append(('fit', X))

            def transform(self, X):
                self._pv_calls.append(('transform', X))
                return ('K', self, X)

            def fit_transform(self, X):
                self._pv_calls.append(('fit_transform', X))
                return ('K', self, X)
        base = Tr(None)
        asked = []

        class KT:
            @staticmethod
            def get(kernel='rbf', **kw):
                asked.append((kernel, kw))
                return base

        def FKT(b, f):
            t = Tr(b, f)
            fits.append(t)
            return t
        swap(M, 'LinearFactorizationLearner', Lin)
        swap(M, 'KernelTransformer', KT)
        swap(M, 'FactorizedKernelTransform', FKT)
        opt, pen = object(), object()
        g, deg, c0, jit = symreal('gamma'), symint('degree'), symreal('coef0'), symreal('jitter')
        bias = bool(c.choose(2))
        o = M.KernelFactorizationLearner(opt, pen, bias, 'poly', g, deg, c0, jit)
        prove('the inner linear learner is configured as given', z3.BoolVal(len(made) == 1 and made[0]._pv_kw.get('optimizer') is opt and made[0]._pv_kw.get('penalty_term') is pen
                                                                             and made[0]._pv_kw.get('add_bias') is bias))
        k, kw = asked[0]
        prove('the named kernel with the given parameters', z3.BoolVal(len(asked) == 1 and k == 'poly' and kw.get('gamma') is g and kw.get('degree') is deg and kw.get('coef0') is c0
                                                                        and kw.get('jitter') is jit and kw.get('nystroem_components') is None))
        n, m, d = size('n', 1), size('m', 1), size('d', 1)
        X, y, Q = mat('X', n, d), vec('y', n), mat('Q', m, d)
        part = c.choose(2)
        f = [[0], [1, 2]] if part else 3
        x0 = vec('x0', n)
        r = o.fit(X, y, f, 2, x0)
        e = [x for x in log if x[0] == 'fit']
        prove('one fit', z3.BoolVal(len(e) == 1 and r == 'result'))
        _, K, yy, ff, rr, xx = e[0]
        prove('labels, retries and start passed on', z3.BoolVal(yy is y and rr == 2 and xx is x0))
        prove('number of subspaces', z3.BoolVal(ff == (2 if part else 3)))
        tr = fits[-1]
        prove('a transformer of its own, on the given structure', z3.BoolVal(tr is not base and not base._pv_calls and tr._pv_base is base and (tr._pv_part == f if part else tr._pv_part is None)))
        prove('on the kernel matrix of the training points', z3.BoolVal(isinstance(K, tuple) and K[1] is tr and K[2] is X and len(tr._pv_calls) == 1 and tr._pv_calls[0][0] == 'fit_transform'))
        for nm in ('predict', 'predict_proba', 'partial_proba'):
            r = getattr(o, nm)(Q)
            prove('%s: of the linear learner on the kernel values' % nm, z3.BoolVal(isinstance(r, tuple) and r[0] == nm and r[1][1] is tr and r[1][2] is Q))
        prove('predicting does not refit', z3.BoolVal(all(x[0] == 'transform' for x in tr._pv_calls[1:])))
        o.fit(Q, y, 2)
        prove('a new fit gets a new transformer', z3.BoolVal(fits[-1] is not tr and fits[-1]._pv_part is None))
    us.append(Unit(E, 'KernelFactorizationLearner', d_learner))
    for parts in (1, 2, 3):
        us.append(Unit(E, 'FactorizedKernelTransform[%d subspaces]' % parts, d_fact(parts)))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
