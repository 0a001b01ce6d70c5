"""Contracts of the rounding algorithm and of its search for the best cut on the unit sphere (C28)."""
from pyvc import funcs
from pyvc.reduce import _rows, equal_sums, equate_sums, sum_rule

from .common import *
from .explore import Obj, prop, raised
from .kernels import total
from .sampler import ELL, POL, R0, R1, cone, ellipsoid, restub1
from .vspace import rows_of

ROU = 'aideme.active_learning.version_space.hit_and_run.rounding'
FUNCTIONS = {'C28': ['Ellipsoid.compute_alpha', 'RoundingAlgorithm.__init__/fit', 'diagonalization_strategy', 'OptimizedStrategy.__init__',
                     'OptimizedStrategy.__call__ (when it stops)', 'OptimizedStrategy._get_best_cut_on_sphere', 'alpha_on_sphere (value and gradient)',
                     'SphericalGradientDescent.__init__/proj/advance/converged/optimize (both retractions)', 'ResultObject']}
ASSUMPTIONS = {'C28': ['cos and sin by cos^2 + sin^2 = 1; minimize_scalar returns an arbitrary step',
                       'exchange of the order of a finite double sum (proof rule)',
                       'alpha_on_sphere: the ellipsoid has a positive width in the direction of the point']}


def link(*pairs):
    for k, (a, b) in enumerate(pairs):
        if not a.eq(b):
            equal_sums('the same sum (%d)' % (k + 1), a, b)


def trig(M):
    """numpy with sine and cosine by the Pythagorean identity"""
    np = vars(M)['np']
    c = ctx()
    C, S = z3.Function('cos', z3.RealSort(), z3.RealSort()), z3.Function('sin', z3.RealSort(), z3.RealSort())

    def at(f):
        def g(x):
            t = to_real(t_(x))
            assume(C(t) * C(t) + S(t) * S(t) == 1)
            return wrap(f(t))
        return g

    class NP:
        cos, sin = staticmethod(at(C)), staticmethod(at(S))

        def __getattr__(self, k):
            return getattr(np, k)
    swap(M, 'np', NP())


def units_C28(E):
    us = []

    def d_alphas():
        M, o, n, D, L, z = ellipsoid(E)
        m = size('m', 1)
        G = mat('G', m, n)
        rD, rL, rz, rG = D.reader(), L.reader(), z.reader(), G.copy().reader()
        r = toarr(o.compute_alpha(G))
        i = ctx().const('i', Int)
        assume(i >= 0, i < m.t)
        v = rows_of(m, lambda i: total(lambda j: to_real(rG(i, j)) * to_real(rz(j)), n))
        ah = _rows([m, n], lambda i, k: total(lambda j: to_real(rG(i, j)) * to_real(rL(j, k)), n)).reader()
        q = rows_of(m, lambda i: total(lambda k: ah(i, k) * ah(i, k) * rD(k), n))
        got = r.reader()(i)
        equate_sums()
        prove('one value per half-space', dterm(r.shape[0]) == m.t)
        prove('relative position of every half-space through the origin', got == v(i) / funcs.sqrt(q(i)))
        prove('nothing changes', And(same_array(o.D, D), same_array(o.L, L), same_array(o.center, z)))
    us.append(Unit(E, 'Ellipsoid.compute_alpha', d_alphas))

    # ------------------------------------------------------------ the rounding loop
    def d_init():
        M = E.load(ROU)
        c = ctx()
        mi = symint('max_iter') if c.choose(2) else None
        name = ['default', 'OPT', 'other'][c.choose(3)]
        zc, sc, so = bool(c.choose(2)), bool(c.choose(2)), [None, Opq()][c.choose(2)]
        o, err = raised(lambda: M.RoundingAlgorithm(mi, name, zc, sc, so), ValueError)
        bad = Or(z3.BoolVal(name == 'other'), z3.BoolVal(False) if mi is None else mi.t <= 0)
        prove('unknown strategies and non-positive budgets are rejected', z3.BoolVal(err is not None) == bad)
        if err is not None:
            return
        prove('no budget is an infinite one', z3.BoolVal(o.max_iter == float('inf')) if mi is None else t_(o.max_iter) == mi.t)
        if name == 'default':
            prove('the default strategy needs the matrix', z3.BoolVal(o.strategy is M.diagonalization_strategy and o.compute_scale_matrix is True))
        else:
            s = o.strategy
            prove('the optimised strategy with its options', z3.BoolVal(
                isinstance(s, M.OptimizedStrategy) and o.compute_scale_matrix is False and s.z_cut is zc and s.sphere_cuts is sc and
                (s.optimizer is so if so is not None else isinstance(s.optimizer, M.SphericalGradientDescent))))
    us.append(Unit(E, 'RoundingAlgorithm.__init__', d_init))

    cell = {}

    def fit_inv(L, t, g):
        G = cell['G']
        return [('one round per cut', And(t_(G.cuts) == t, t_(G.rounds) == t, t_(L.count) == t))] + (
            [('within the budget', t <= cell['mi'].t)] if cell['mi'] is not None else [])

    def d_fit():
        M = E.load(ROU)
        c = ctx()
        cell.clear()
        mi = size('max_iter', 1) if c.choose(2) else None
        o = M.RoundingAlgorithm(mi)
        G = Ghost()
        G.cuts, G.rounds = symint('zero'), symint('zero')
        assume(G.cuts.t == 0, G.rounds.t == 0)
        G.last = symbool('last')
        cell.update(G=G, mi=mi)
        d = size('dim', 1)
        body = Obj('body', [], dim=prop(lambda: d))
        made = []

        def new(*a, **k):
            made.append((a, k))
            return 'a new ellipsoid'
        swap(M, 'Ellipsoid', new)
        given = None if c.choose(2) else 'the given ellipsoid'
        scale = o.compute_scale_matrix

        def strategy(elp, b):
            prove('the given body and ellipsoid', z3.BoolVal(b is body and elp == (given or 'a new ellipsoid')))
            r = symbool('cut')
            G.rounds = wrap(G.rounds.t + 1)
            G.cuts = wrap(If(r.t, G.cuts.t + 1, G.cuts.t))
            G.last = r
            return r
        o.strategy = strategy
        c.roots.append(('G', G))
        r = o.fit(body, given) if given else o.fit(body)
        if given:
            prove('the given ellipsoid is rounded', z3.BoolVal(r == given and not made))
        else:
            a, k = made[0] if made else ((), {})
            prove('starting from the unit ball of the dimension', z3.BoolVal(r == 'a new ellipsoid' and len(made) == 1 and len(a) + len(k) == 2))
            dim, sm = (list(a) + [k.get('dim'), k.get('compute_scale_matrix')])[0], k.get('compute_scale_matrix', a[1] if len(a) > 1 else None)
            prove('of the dimension of the body, with the matrix when the strategy needs it', And(t_(dim) == d.t, z3.BoolVal(sm is scale)))
        if mi is None:
            prove('without a budget the rounding ends only when the strategy has no more cut', And(Not(G.last.t), G.rounds.t == G.cuts.t + 1))
        else:
            prove('ends when the strategy has no more cut or the budget is used up', Or(G.cuts.t == mi.t, And(Not(G.last.t), G.rounds.t == G.cuts.t + 1)))
            prove('never more rounds than the budget', G.rounds.t <= mi.t)
    us.append(Unit(E, 'RoundingAlgorithm.fit', d_fit, {'RoundingAlgorithm.fit:while#1': LoopSpec(inv=fit_inv)}))

    def d_diag():
        M = E.load(ROU)
        c = ctx()
        n = size('extremes')
        Sep, Cut = c.func('separated', Int, Bool), c.func('cuts', Int, Bool)
        tag = {}

        class Point(Opq):
            def __init__(self, i):
                self._pv_i = i
        cell.clear()
        cell.update(sep=Sep, cut=Cut)
        done = []

        def oracle(v):
            tag['i'] = v._pv_i
            return (('bias', v._pv_i), ('normal', v._pv_i)) if c.branch(Sep(v._pv_i)) else None

        def cut(b, g):
            prove('the half-space of the oracle', z3.BoolVal(b[0] == 'bias' and g[0] == 'normal' and b[1] is g[1] and b[1] is tag['i']))
            done.append(b[1])
            return SymBool(Cut(b[1]))
        elp = Obj('elp', [], extremes=lambda: SymList.of(n, lambda i: Point(i)), cut=cut)
        body = Obj('body', [], get_separating_oracle=oracle)
        r = M.diagonalization_strategy(elp, body)
        good = lambda i: And(Sep(i), Cut(i))
        if c.branch(t_(r)):
            prove('goes on only after a cut by a half-space of the oracle', z3.BoolVal(len(done) >= 1))
            prove('that was made', good(done[-1]) if done else z3.BoolVal(False))
        else:
            prove('stops only when no extreme point gives a cut', forall(0, n.t, lambda i: Not(good(i)), lambda i: [Sep(i)]))
    us.append(Unit(E, 'diagonalization_strategy', d_diag, {'diagonalization_strategy:for#1': LoopSpec(
        inv=lambda L, t, g: [('no cut so far', forall(0, t, lambda i: Not(And(cell['sep'](i), cell['cut'](i))), lambda i: [cell['sep'](i)]))])}))

    def d_stop():
        M = E.load(ROU)
        c = ctx()
        P, body, n, d, A, row, sq = cone(E, 1)
        z, best, gam = vec('center', d), vec('best', d), symreal('gamma')
        al, az = vec('alpha', n), symreal('alpha_z')
        zc, sc = bool(c.choose(2)), bool(c.choose(2))
        o = M.OptimizedStrategy(z_cut=zc, sphere_cuts=sc, sphere_cuts_optimizer=Obj('optimizer', []))
        asked = []
        restub1(o, '_get_best_cut_on_sphere', lambda elp, threshold: asked.append(threshold) or (gam, (1, best)))
        log = []

        def depths(G):
            prove('depth of the constraints', same_array(toarr(G), A))
            return al.copy()
        elp = Obj('elp', log, dim=prop(lambda: d), center=prop(lambda: z), compute_alpha=depths,
                  compute_alpha_single=lambda b, g: az, cut=lambda b, g: symbool('cut'))
        ra = al.reader()
        r = o(elp, body)
        s = funcs.sqrt(to_real(d.t))
        thr = 1 / ((to_real(d.t) + 1) * s)
        deep = lambda v: -v < thr
        some = Exists([Int], lambda i: And(i >= 0, i < n.t, deep(ra(i))))
        cuts = [a for nm, a, k in log if nm == 'elp.cut']
        prove('the documented depth is asked of the search on the sphere', And(*[to_real(t_(a)) == thr for a in asked]) if asked else z3.BoolVal(True))
        if not cuts:
            prove('stops only when no constraint is deep enough', forall(0, n.t, lambda i: Not(deep(ra(i))), lambda i: [ra(i)]))
            if zc:
                prove('and the unit ball through the centre neither', Or(Not(deep(az.t)), Exists([Int], lambda i: And(i >= 0, i < n.t, ra(i) == 0))))
            if sc:
                prove('nor any tangent half-space', And(z3.BoolVal(len(asked) == 1), gam.t >= thr))
        elif toarr(cuts[0][1]).buf is best.buf:
            prove('a tangent cut is deep enough', gam.t < thr)
        elif toarr(cuts[0][1]).buf is z.buf:
            prove('a cut through the centre is deep enough', And(deep(az.t), forall(0, n.t, lambda i: ra(i) <= az.t, lambda i: [ra(i)])))
        elif toarr(cuts[0][1]).buf is body.A.buf and toarr(cuts[0][1]).dims[0][0] == 'fix':
            k = toarr(cuts[0][1]).dims[0][1]
            prove('a cut along a constraint is deep enough', deep(ra(k)))
            prove('and the deepest one', forall(0, n.t, lambda i: ra(i) <= ra(k), lambda i: [ra(i)]))
        else:
            c.unsupported('another cut')
    us.append(Unit(E, 'OptimizedStrategy.__call__: depth', d_stop))

    def d_best():
        M = E.load(ROU)
        c = ctx()
        o = M.OptimizedStrategy(sphere_cuts=True, sphere_cuts_optimizer=None)
        seen = []
        F, Gr = object(), object()
        swap(M, 'alpha_on_sphere', lambda e: (F, Gr) if e is elp else c.unsupported('another ellipsoid'))
        z, x, thr, v = vec('center', size('d', 1)), vec('x', size('d', 1)), symreal('thr'), symreal('v')
        elp = Obj('elp', [], center=prop(lambda: z))

        class Res:
            fun = v
        Res.x = x

        class Opt:
            def optimize(self, x0, func, grad, func_threshold=None):
                seen.append((x0, func, grad, func_threshold))
                return Res
        o.optimizer = Opt()
        r = o._get_best_cut_on_sphere(elp, thr)
        prove('one search from the centre, for the objective of this ellipsoid, up to the threshold', z3.BoolVal(
            len(seen) == 1 and seen[0][0] is z and seen[0][1] is F and seen[0][2] is Gr and seen[0][3] is thr))
        prove('the tangent half-space at the point found', And(t_(r[0]) == v.t, z3.BoolVal(r[1][0] == 1 and r[1][1] is x)))
    us.append(Unit(E, 'OptimizedStrategy._get_best_cut_on_sphere', d_best))

    # ------------------------------------------------------------ the objective on the sphere
    def d_objective():
        M = E.load(ROU)
        c = ctx()
        _, e, n, D, L, z = ellipsoid(E)
        rD, rL, rz = D.reader(), L.reader(), z.reader()
        x = vec('x', n)
        rx = x.copy().reader()
        func, grad = M.alpha_on_sphere(e)
        X = lambda i: to_real(rx(i))
        LL = lambda i, k: to_real(rL(i, k)) * funcs.sqrt(to_real(rD(k)))
        u = rows_of(n, lambda k: total(lambda i: LL(i, k) * X(i), n))
        q = total(lambda k: u(k) * u(k), n)
        num = total(lambda i: X(i) * (X(i) - to_real(rz(i))), n)
        assume(q > 0)
        nrm = funcs.sqrt(q)
        f = to_real(t_(func(x)))
        equate_sums()
        prove('value: how far the tangent half-space is from the centre, relative to the width', f == num / nrm)
        g = toarr(grad(x))
        rg = g.reader()
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        Px = rows_of(n, lambda i: total(lambda k: LL(i, k) * u(k), n))
        one, pi = rg(i), Px(i)
        equate_sums(i)
        prove('gradient', And(dterm(g.shape[0]) == n.t, one == (X(i) - to_real(rz(i))) / nrm - (f / q) * pi))
        prove('nothing changes', And(same_array(x, toarr(x)), same_array(e.D, D), same_array(e.L, L), same_array(e.center, z)))
    us.append(Unit(E, 'alpha_on_sphere', d_objective))

    def d_tangent():
        """the formula proved for the gradient is orthogonal to the point"""
        c = ctx()
        n = size('n', 1)
        lf, xf, df = c.func('l', Int, Int, Real), c.func('x', Int, Real), c.func('diff', Int, Real)
        u = rows_of(n, lambda k: total(lambda i: lf(i, k) * xf(i), n))
        Px = rows_of(n, lambda i: total(lambda k: lf(i, k) * u(k), n))
        q = total(lambda k: u(k) * u(k), n)
        num = total(lambda i: xf(i) * df(i), n)
        nrm = symreal('nrm').t
        assume(nrm > 0, nrm * nrm == q)
        a, b = symreal('a').t, symreal('b').t
        assume(a * nrm == 1, b * nrm * q == num)         # a = 1 / norm, b = value / norm^2
        S, T, N = sum_rule('product with the point', n, (1, lambda i: xf(i) * (a * df(i) - b * Px(i))), (b, lambda i: xf(i) * Px(i)), (-a, lambda i: xf(i) * df(i)))
        w = lambda i, k: xf(i) * lf(i, k) * u(k)
        i = c.const('i', Int)
        rows = rows_of(n, lambda i: total(lambda k: w(i, k), n))
        cols = rows_of(n, lambda k: total(lambda i: w(i, k), n))
        def row(i):
            a1, a2 = sum_rule('a row', n, (1, lambda k: w(i, k)), (-xf(i), lambda k: lf(i, k) * u(k)))
            link((a1, rows(i)), (a2, Px(i)))
            derive('terms of a row', xf(i) * Px(i) == rows(i), a1 - xf(i) * a2 == 0, a1 == rows(i), a2 == Px(i), general=(a1, a2, rows(i), Px(i)))

        def col(k):
            a1, a2 = sum_rule('a column', n, (1, lambda i: w(i, k)), (-u(k), lambda i: lf(i, k) * xf(i)))
            link((a1, cols(k)), (a2, u(k)))
            derive('terms of a column', cols(k) == u(k) * u(k), a1 - u(k) * a2 == 0, a1 == cols(k), a2 == u(k), general=(a1, a2, cols(k), u(k)))
        every('row', 0, n.t, lambda i: xf(i) * Px(i) == rows(i), row, lambda i: [Px(i)])
        every('column', 0, n.t, lambda k: cols(k) == u(k) * u(k), col, lambda k: [cols(k)])
        x1, y1 = total(rows, n), total(cols, n)
        assume(x1 == y1)                                  # exchange of the order of summation (induction on the length)
        T2, x2 = sum_rule('sum of the rows', n, (1, lambda i: xf(i) * Px(i)), (-1, rows))
        y2, q2 = sum_rule('sum of the columns', n, (1, cols), (-1, lambda k: u(k) * u(k)))
        link((T, T2), (x2, x1), (y1, y2), (q2, q), (N, num))
        derive('the two double sums', T == q, T == T2, T2 - x2 == 0, x2 == x1, x1 == y1, y1 == y2, y2 - q2 == 0, q2 == q)
        derive('the gradient is tangent to the sphere', S == 0, S + b * T - a * N == 0, T == q, N == num, a * nrm == 1, b * nrm * q == num, nrm * nrm == q, nrm > 0)
    us.append(Unit(E, 'alpha_on_sphere: tangent', d_tangent))
    return us + sphere_units(E)


class Ghost:
    __pvobject__ = True


def sphere_units(E):
    us = []

    def sums(n, x, g):
        sx = total(lambda j: to_real(x(j)) * to_real(x(j)), n)
        sg = total(lambda j: to_real(g(j)) * to_real(g(j)), n)
        xg = total(lambda j: to_real(x(j)) * to_real(g(j)), n)
        return sx, sg, xg

    def d_advance(mode):
        def drv():
            M = E.load(ROU)
            c = ctx()
            trig(M)
            own = c.choose(2) == 0
            s = symreal('step')
            ss = vars(M)['scipy'].optimize if 'scipy' in vars(M) else c.unsupported('no scipy')
            if own:
                assume(s.t > 0)
            else:
                class Min:
                    pass
                Min.x = s
                used = []

                def minimize_scalar(f, bounds=None, method=None, **k):
                    used.append((bounds, method, f))
                    return Min
                saved = ss.minimize_scalar
                ss.minimize_scalar = minimize_scalar
                c.undo.append(lambda: setattr(ss, 'minimize_scalar', saved))
            o = M.SphericalGradientDescent(retraction=mode, step_size=s if own else None)
            n = size('n', 1)
            x, g = vec('x', n), vec('g', n)
            x0 = x.copy()
            rx, rg = x0.reader(), g.copy().reader()
            sx, sg, xg = sums(n, rx, rg)
            assume(sx == 1, xg == 0, sg > 0)

            calls = []

            def func(p):
                v = symreal('f')
                calls.append(('f', toarr(p), v))
                return v

            def grad(p):
                w = vec('grad', n)
                calls.append(('g', toarr(p), w))
                return w
            projected = []

            def proj(v):
                v = toarr(v)
                rv, y = v.copy().reader(), vec('proj', v.shape[0])
                projected.append((v, rv, y))
                return y
            if mode == 'project':
                restub1(o, 'proj', proj)
            r = M.ResultObject(x, symreal('f0'), g, symint('iters'))
            it0 = t_(r.iters)
            equate_sums()
            prove('the norm of the gradient is kept', t_(r.grad_norm) * t_(r.grad_norm) == sg)
            prove('of the gradient, not negative', t_(r.grad_norm) >= 0)
            new = o.advance(r, func, grad)
            if not own:
                prove('one search along the gradient', z3.BoolVal(len(used) == 1))
                del calls[:]
                new = o.advance(r, func, grad)
            y = toarr(new.x)
            ry = y.reader()
            if mode == 'sphere':
                C, S = z3.Function('cos', z3.RealSort(), z3.RealSort())(s.t), z3.Function('sin', z3.RealSort(), z3.RealSort())(s.t)
                gn = t_(r.grad_norm)
                k = symreal('k').t
                assume(k * gn == S)
                prove('moves along the great circle', forall(0, n.t, lambda j: ry(j) == C * to_real(rx(j)) - k * to_real(rg(j))))
                q = sum_rule('norm', n, (1, lambda j: to_real(ry(j)) * to_real(ry(j))), (-C * C, lambda j: to_real(rx(j)) * to_real(rx(j))),
                             (2 * C * k, lambda j: to_real(rx(j)) * to_real(rg(j))), (-k * k, lambda j: to_real(rg(j)) * to_real(rg(j))))[0]
                derive('the step in lengths', k * k * sg == S * S, k * gn == S, gn * gn == sg)
                derive('stays on the unit sphere', q == 1, q - C * C * sx + 2 * C * k * xg - k * k * sg == 0, sx == 1, xg == 0, k * k * sg == S * S, C * C + S * S == 1)
            else:
                w = lambda j: to_real(rx(j)) - s.t * to_real(rg(j))
                q = sum_rule('norm', n, (1, lambda j: w(j) * w(j)), (-1, lambda j: to_real(rx(j)) * to_real(rx(j))),
                             (2 * s.t, lambda j: to_real(rx(j)) * to_real(rg(j))), (-s.t * s.t, lambda j: to_real(rg(j)) * to_real(rg(j))))[0]
                derive('longer than one', q >= 1, q - sx + 2 * s.t * xg - s.t * s.t * sg == 0, sx == 1, xg == 0, sg > 0)
                mine = [p for p in projected if p[2].buf is y.buf]
                if not mine:
                    c.unsupported('the step is not projected by proj')
                v, rv, _ = mine[-1]
                prove('projects the gradient step, which does not vanish', And(dterm(v.shape[0]) == n.t, forall(0, n.t, lambda j: rv(j) == w(j)), q > 0))
            mine = [a for a in calls if a[1].buf is y.buf]
            fv, gv = [v for a, p, v in mine if a == 'f'], [v for a, p, v in mine if a == 'g']
            prove('value and gradient at the new point', And(z3.BoolVal(bool(fv) and bool(gv)), t_(new.fun) == fv[-1].t if fv else z3.BoolVal(False),
                                                            same_array(toarr(new.grad), gv[-1]) if gv else z3.BoolVal(False)))
            prove('one more iteration', t_(new.iters) == it0 + 1)
            prove('the current point stays', And(same_array(x, x0), same_array(toarr(r.x), x0)))
        return drv
    us.append(Unit(E, 'SphericalGradientDescent.advance[sphere]', d_advance('sphere')))
    us.append(Unit(E, 'SphericalGradientDescent.advance[project]', d_advance('project')))

    def d_options():
        M = E.load(ROU)
        c = ctx()
        nm = ('grad_norm_threshold', 'rel_tol', 'max_iter', 'step_size', 'retraction')[c.choose(5)]
        v = symint('v') if nm == 'max_iter' else symreal('v') if nm != 'retraction' else ['other', 'Sphere', 'PROJECT'][c.choose(3)]
        o, err = raised(lambda: M.SphericalGradientDescent(**{nm: v}), ValueError)
        bad = z3.BoolVal(v == 'other') if nm == 'retraction' else v.t <= 0
        prove('exactly options out of range are rejected', z3.BoolVal(err is not None) == bad)
    us.append(Unit(E, 'SphericalGradientDescent.__init__', d_options))

    def d_proj():
        M = E.load(ROU)
        n = size('n', 1)
        x = vec('x', n)
        rx = x.copy().reader()
        q = total(lambda j: to_real(rx(j)) * to_real(rx(j)), n)
        assume(q > 0)
        y = toarr(M.SphericalGradientDescent.proj(x))
        ry, nrm = y.reader(), funcs.sqrt(q)
        equate_sums()
        prove('the direction of the vector', forall(0, n.t, lambda j: ry(j) * nrm == to_real(rx(j))))
        p = sum_rule('its norm', n, (q, lambda j: to_real(ry(j)) * to_real(ry(j))), (-1, lambda j: to_real(rx(j)) * to_real(rx(j))))[0]
        prove('on the unit sphere', p == 1)
        prove('the vector itself stays', forall(0, n.t, lambda j: x.reader()(j) == rx(j)))
    us.append(Unit(E, 'SphericalGradientDescent.proj', d_proj))

    cell = {}

    def opt_inv(L, t, g):
        c = cell
        k = L.result.x._pv_k
        return [('the value belongs to the point', t_(L.result.fun) == c['F'](k)),
                ('on the unit sphere', c['U'](k)),
                ('the gradient belongs to the point', t_(L.result.grad_norm) == c['N'](k)),
                ('iterations are counted', And(t_(L.result.iters) == t, t >= 0)),
                ('within the budget', t < c['mi'].t if c['mi'] is not None else z3.BoolVal(True)),
                ('the threshold was not passed', Or(t == 0, c['F'](k) >= c['thr']))]

    def d_optimize():
        M = E.load(ROU)
        c = ctx()
        cell.clear()
        F, N, U = c.func('F', Int, Real), c.func('N', Int, Real), c.func('unit', Int, Bool)
        mi = size('max_iter', 1) if c.choose(2) else None
        thr = symreal('threshold')
        cell.update(F=F, N=N, U=U, mi=mi, thr=thr.t)

        class Point(Opq):
            def __init__(self, k=None):
                self._pv_k = c.const('point', Int) if k is None else k

        class Grad(Opq):
            def __init__(self, k):
                self._pv_k = k
        o = M.SphericalGradientDescent(max_iter=mi)
        x0 = Opq()

        class Res(Opq):
            """what ResultObject holds"""
            def __init__(self, x, fun, grad, iters=0):
                prove('value and gradient of this point', And(t_(fun) == F(x._pv_k), z3.BoolVal(grad._pv_k is x._pv_k)))
                self.x, self.fun, self.grad = x, fun, grad
                self.grad_norm = wrap(N(x._pv_k))
                self.converged = False
                self.iters = iters

        swap(M, 'ResultObject', Res)

        def some(c_):
            p = Point()
            return Res(p, wrap(F(p._pv_k)), Grad(p._pv_k), symint('iters'))

        def proj(x):
            prove('starts from the projection of the given point', z3.BoolVal(x is x0))
            p = Point()
            assume(U(p._pv_k))
            return p
        object.__setattr__(o, 'proj', proj)

        def retraction(step, r):
            prove('a step is taken from a point of the sphere, along a gradient that does not vanish', And(U(r.x._pv_k), N(r.x._pv_k) > 0))
            p = Point()
            assume(U(p._pv_k))
            return p
        o.retraction = retraction
        o.step_optimizer = lambda func, r: symreal('step')
        func, grad = lambda p: wrap(F(p._pv_k)), lambda p: Grad(p._pv_k)
        cell['some'] = some
        r = o.optimize(x0, func, grad, func_threshold=thr)
        k = r.x._pv_k
        prove('the point returned lies on the unit sphere, with its own value', And(U(k), t_(r.fun) == F(k)))
        if mi is not None:
            prove('within the budget of iterations', And(t_(r.iters) >= 0, t_(r.iters) <= mi.t))
        if r.converged is True:
            cover('converged')
        else:
            prove('otherwise stopped by the budget or by the threshold', Or(t_(r.fun) < thr.t, t_(r.iters) == mi.t if mi is not None else z3.BoolVal(False)))
            cover('stopped')
    maybe = lambda c: cell['some'](c) if c.choose(2) else None
    us.append(Unit(E, 'SphericalGradientDescent.optimize', d_optimize, {'SphericalGradientDescent.optimize:while#1': LoopSpec(
        inv=opt_inv, types={'result': lambda c: cell['some'](c), 'prev_result': maybe})}))

    def d_converged():
        M = E.load(ROU)
        c = ctx()
        o = M.SphericalGradientDescent(grad_norm_threshold=symreal_pos('gt'), rel_tol=symreal_pos('rt'))
        gt, rt = t_(o.grad_norm_threshold), t_(o.rel_tol)

        class R(Opq):
            pass
        a, b = R(), R()
        for r in (a, b):
            r.fun, r.grad_norm = symreal('fun'), symreal('gn')
        first = c.choose(2) == 1
        got = t_(o.converged(b)) if first else t_(o.converged(b, a))
        small = t_(b.grad_norm) <= gt
        prove('a small gradient, or a small relative gain', got == (small if first else Or(small, t_(a.fun) - t_(b.fun) < rt * t_(a.fun))))
    us.append(Unit(E, 'SphericalGradientDescent.converged', d_converged))
    return us


def symreal_pos(name):
    v = symreal(name)
    assume(v.t > 0)
    return v


def units(E, prop):
    return globals()['units_' + prop](E)
