"""Contracts of the optimisers and step size schedules (C19)."""
import math

from pyvc import funcs, npstub
from pyvc.spstub import OptimizeResult

from pyvc.arrays import Carried

from .common import *
from .explore import raised
from .penalty import OPT, R, Part
from .sampler import restub1

FUNCTIONS = {'C19': ['OptimizationAlgorithm.__init__/minimize/_gradient_converged (with its private helpers inlined)', 'BFGS.minimize',
                     'SearchDirectionOptimizer.__init__/_advance (scheduler selection inlined)', 'FixedScheduler', 'PowerDecayScheduler', 'ExponentialDecayScheduler',
                     'LineSearchScheduler', 'GradientDescent._compute_search_dir/_reset', 'NoisyGradientDescent._compute_search_dir',
                     'ProximalGradientDescent._advance', 'FISTA._advance/_reset', 'Adam._compute_search_dir/_reset', 'LinearFactorizationLearner.fit (restarts)']}
ASSUMPTIONS = {'C19': ['the objective, its gradient and the callback do not modify the arrays they are given',
                       'iterates are matrices or vectors of any size; a budget is an integer of at least one or absent',
                       'scipy.optimize.minimize (BFGS) and minimize_scalar (Brent) by contract: budget and tolerance are handed over, their answer is used',
                       'the next point, and the gradient test, of a subclass are arbitrary in the proof of the iteration loop and proved per subclass',
                       'Adam: decay rates below one']}
LOOP = 'OptimizationAlgorithm.minimize:while#1'


class Log:
    """what the components were given (ghost state)"""
    __pvobject__ = True


def units_C19(E):
    us, cell = [], {}

    def result(x, grad, it):
        r = OptimizeResult()
        r.x, r.grad, r.it, r.prev, r.success = x, grad, it, None, False
        return r

    # ---------------------------------------------------------------- the iteration loop, for any subclass
    def fresh(like):
        return Arr.fresh('pt', like.shape, 'real')

    def norm(a, *k, **kw):
        """the norm of an array: an arbitrary function of its contents"""
        a = toarr(a)
        if k or kw:
            ctx().unsupported('norm with options')
        ix = [z3.Int('nx%d' % i) for i in range(a.ndim)]
        key = ('norm', a.reader()(*ix)) + tuple(dterm(d) for d in a.shape)
        key = tuple(z3.simplify(x).sexpr() if z3.is_expr(x) else x for x in key)
        memo = ctx().memo
        if key not in memo:
            memo[key] = symreal('norm')
            assume(memo[key].t >= 0)
        return memo[key]

    norm_ = norm

    def norm_less(a, b, k):
        """norm(a) < k * norm(b)"""
        return as_term(norm(a) < k * norm(b))

    def d_loop(withgrad, verbose=False, flat=False):
        def drv():
            c, M = ctx(), E.load(OPT)
            cell.clear()
            D1, D2 = size('N', 1), size('D', 1)
            x0 = vec('x0', D1) if flat else mat('x0', D1, D2)
            start = x0.copy()
            np = vars(M)['np']

            class NP:
                class linalg:
                    norm = staticmethod(lambda *a, **k: norm_(*a, **k))

                def __getattr__(self, k):
                    return getattr(np, k)
            swap(M, 'np', NP())
            G = Log()
            G.n, G.cx, G.gx, G.ok, G.adv = symint('zero'), None, None, symbool('never'), symint('zero')
            assume(G.n.t == 0, G.adv.t == 0)
            gtol, rtol = symreal('gtol'), symreal('rtol')
            assume(gtol.t >= 0, rtol.t >= 0)
            budget = symint('budget') if c.choose(2) else None
            if budget is not None:
                assume(budget.t >= 1)
            resets, evals = [], []

            def callback(x):
                G.n = wrap(G.n.t + 1)
                G.cx = toarr(x).copy()
            watch = bool(c.choose(2))

            def grad(x):
                G.gx = toarr(x).copy()
                G.ok = symbool('flat')
                if 'first' not in cell:
                    cell['first'] = G.ok.t
                return fresh(x)

            def func(x):
                v = symreal('fun')
                evals.append((toarr(x).copy(), v))
                return v

            class Opt(M.OptimizationAlgorithm):
                __pvobject__ = True

                def _reset(self):
                    resets.append((t_(G.n), G.gx is None))
                    M.OptimizationAlgorithm._reset(self)

                def _advance(self, res, f, g):
                    prove('the next point is computed by the given objective and gradient', z3.BoolVal(f is func and g is grad))
                    G.adv = wrap(G.adv.t + 1)
                    return fresh(res.x)

                def _gradient_converged(self, res, tol):
                    prove('the tolerance is the configured one', R(tol) == gtol.t)
                    prove('tested at the current point', same_array(res.x, G.gx))
                    return G.ok
            o = Opt(gtol=gtol, rel_tol=rtol, max_iter=budget, callback=callback if watch else None, verbose=verbose)
            if not withgrad:
                if not hasattr(o, '_add_grad_to_result'):
                    c.unsupported('no switch for the gradient of the iterates')
                o._add_grad_to_result = False
            warned = []
            if verbose:
                class W:
                    warn = staticmethod(lambda *a, **k: warned.append(a))
                swap(M, 'warnings', W)
            cell.update(x0=start, budget=budget, rtol=rtol, watch=watch, withgrad=withgrad, G=G)
            c.roots.append(('G', G))
            r = o.minimize(x0, func, grad)
            prove('the state is reset once, before anything is computed', And(z3.BoolVal(len(resets) == 1 and resets[0][1]), resets[0][0] == 0))
            prove('one step per iteration', t_(r.it) == G.adv.t)
            if budget is not None:
                prove('at most the configured number of iterations', t_(r.it) <= budget.t)
                prove('stops before the budget only when converged', Or(t_(r.success), t_(r.it) == budget.t))
            else:
                prove('stops only when converged', t_(r.success))
            prove('the objective is evaluated at the returned point', And(z3.BoolVal(len(evals) == 1), same_array(evals[-1][0], r.x)))
            prove('and is the recorded value', R(r.fun) == evals[-1][1].t)
            near = z3.BoolVal(False) if r.prev is None else norm_less(toarr(r.x) - r.prev, r.x, rtol)
            tested = And(z3.BoolVal(withgrad), t_(r.it) < budget.t if budget is not None else z3.BoolVal(True))
            prove('success: small step or gradient test', t_(r.success) == Or(near, And(tested, t_(G.ok))))
            prove('a gradient test is at the returned point', Implies(tested, same_array(G.gx, r.x) if G.gx is not None else z3.BoolVal(not withgrad)))
            prove('a relative tolerance of zero never stops the search', Implies(And(rtol.t == 0, Not(And(tested, t_(G.ok)))), Not(t_(r.success))))
            if withgrad:
                prove('a starting point within tolerance is returned unchanged', Implies(cell['first'], And(t_(r.it) == 0, same_array(r.x, start), t_(r.success))))
            if watch:
                prove('the callback sees every point, the returned one last', And(G.n.t == t_(r.it) + 1, same_array(G.cx, r.x)))
            prove("the caller's starting point is unchanged", same_array(x0, start))
            prove('warned only without convergence', z3.BoolVal(not warned) if not verbose else t_(r.success) == z3.BoolVal(not warned))
            cover('returned')
            if r.prev is not None:
                cover('after some steps')
        return drv

    def loop_inv(L, t, g):
        r, G = L['result'], cell['G']
        x0, budget, rtol, withgrad = cell['x0'], cell['budget'], cell['rtol'], cell['withgrad']
        it, x = t_(r['it']), r['x']
        out = [('iteration number', it == t), ('one step each', G.adv.t == t)]
        if budget is not None:
            out.append(('within the budget', t <= budget.t))
        if r['prev'] is None:
            out += [('a previous point after a step', t == 0), ('starting point', same_array(x, x0))]
            near = z3.BoolVal(False)
        else:
            out.append(('a previous point after a step', t >= 1))
            near = norm_less(toarr(x) - r['prev'], x, rtol)
        tested = z3.BoolVal(False)
        if withgrad:
            tested = t < budget.t if budget is not None else z3.BoolVal(True)
            out.append(('gradient while the budget lasts', z3.BoolVal(r['grad'] is not None) == tested))
            out.append(('gradient at the current point', Implies(tested, same_array(G.gx, x))))
            out.append(('first test', Implies(t == 0, t_(G.ok) == cell['first'])))
            out.append(('done when the start is within tolerance', Implies(cell['first'], t == 0)))
        out.append(('success', t_(r['success']) == Or(near, And(tested, t_(G.ok)))))
        if cell['watch']:
            out += [('callbacks', G.n.t == t + 1), ('last callback', same_array(G.cx, x))]
        return out

    def maybe(c):
        return None if c.choose(2) else fresh(cell['x0'])
    point_ = lambda c: fresh(cell['x0'])
    spec = {LOOP: LoopSpec(inv=loop_inv, types={"['x']": point_, '.cx': point_, '.gx': point_, "['prev']": maybe, "['grad']": maybe, "['it']": lambda c: symint('it'), "['success']": lambda c: symbool('success')})}
    us.append(Unit(E, 'OptimizationAlgorithm.minimize', d_loop(True), spec))
    us.append(Unit(E, 'OptimizationAlgorithm.minimize (vectors)', d_loop(True, flat=True), spec))
    us.append(Unit(E, 'OptimizationAlgorithm.minimize (no gradient at the iterates)', d_loop(False), spec))
    us.append(Unit(E, 'OptimizationAlgorithm.minimize (verbose)', d_loop(True, True), spec))

    def d_new():
        M = E.load(OPT)
        g, r = symreal('gtol'), symreal('rtol')
        b = [None, symint('budget')][ctx().choose(2)]
        cls = ['OptimizationAlgorithm', 'GradientDescent', 'Adam', 'FISTA', 'BFGS', 'ProximalGradientDescent', 'NoisyGradientDescent'][ctx().choose(7)]
        o, err = raised(lambda: getattr(M, cls)(gtol=g, rel_tol=r, max_iter=b), ValueError)
        good = And(g.t >= 0, r.t >= 0, b.t >= 1 if b is not None else z3.BoolVal(True))
        prove('negative tolerances and budgets below one are rejected, nothing else', good == z3.BoolVal(err is None))
        cover('new' if err is None else 'rejected')
    us.append(Unit(E, 'OptimizationAlgorithm.__init__', d_new))

    def d_test():
        M = E.load(OPT)
        g, tol = mat('g', size('N', 1), size('D', 1)), symreal('tol')
        ok = M.OptimizationAlgorithm()._gradient_converged(result(None, g, symint('it')), tol)
        prove('norm below the tolerance', as_term(ok) == as_term(npstub.norm(g) < tol))
        cover('tested')
    us.append(Unit(E, 'OptimizationAlgorithm._gradient_converged', d_test))

    # ---------------------------------------------------------------- step size schedules, as used by a search direction optimiser
    def options():
        """step options, the documented step size at an iteration"""
        c = ctx()
        s, p, e, k = symreal('s'), symreal('power'), symreal('decay'), symint('every')
        adapt = bool(c.choose(2))
        opt = dict(step_size=s, adapt_step_size=adapt, adapt_every=k, power=p, exp_decay=e)
        good = And(s.t > 0, Implies(z3.BoolVal(adapt), And(k.t >= 1, Implies(e.t <= 0, p.t > 0))))

        def step(it):
            if not adapt:
                return s
            if bool(e > 0):
                return s * e ** (it // k)
            return s / (1 + it // k) ** p
        return opt, good, step

    def moved(name, y, x, step, dirs):
        """y = x - step * dirs, entry by entry"""
        y = toarr(y)
        ry, rx = y.reader(), x.reader()
        i, j = ctx().const('i', Int), ctx().const('j', Int)
        n, d = dterm(x.shape[0]), dterm(x.shape[1])
        assume(i >= 0, i < n, j >= 0, j < d)
        prove(name + ': shape', And(z3.BoolVal(y.ndim == 2), dterm(y.shape[0]) == n, dterm(y.shape[1]) == d))
        prove(name, to_real(ry(i, j)) == to_real(rx(i, j)) - R(step) * dirs(i, j))

    def cellwise(a):
        r = toarr(a).copy().reader()
        return lambda i, j: to_real(r(i, j))

    def point():
        N, D, it = size('N', 1), size('D', 1), symint('it')
        assume(it.t >= 0)
        return N, D, mat('x', N, D), mat('g', N, D), it

    def nofunc(*a):
        prove('the objective is not needed', z3.BoolVal(False))

    def d_steps():
        M = E.load(OPT)
        opt, good, step = options()
        g, err = raised(lambda: M.SearchDirectionOptimizer(**opt), ValueError)
        prove('invalid schedules are rejected, nothing else', good == z3.BoolVal(err is None))
        if err is not None:
            cover('rejected')
            return
        N, D, x, gr, it = point()
        x0, sd = x.copy(), mat('dir', N, D)
        seen = []
        restub1(g, '_compute_search_dir', lambda res: seen.append(res) or sd)
        res = result(x, gr, it)
        y = g._advance(res, nofunc, nofunc)
        prove('one search direction, of the current state', z3.BoolVal(len(seen) == 1 and seen[0] is res))
        moved('documented step along the direction', y, x0, step(it), cellwise(sd))
        prove('the current point is unchanged', same_array(x, x0))
        cover('stepped')
    us.append(Unit(E, 'SearchDirectionOptimizer: schedules', d_steps))

    def d_search():
        M = E.load(OPT)
        S = E.load('aideme.active_learning.factorization.step_size_scheduler')
        g = M.SearchDirectionOptimizer(step_size=None)
        N, D, x, gr, it = point()
        sd, s0 = mat('dir', N, D), symreal('best')
        restub1(g, '_compute_search_dir', lambda res: sd)
        asked, vals = [], []

        def func(z):
            v = symreal('f')
            vals.append((toarr(z).copy(), v))
            return v

        class Ans:
            x = s0
        swap(S, 'minimize_scalar', lambda f, **k: asked.append(f) or Ans)
        y = g._advance(result(x, gr, it), func, nofunc)
        prove('one line search', z3.BoolVal(len(asked) == 1))
        t = symreal('t')
        v = asked[0](t)
        prove('its value is the objective', And(z3.BoolVal(len(vals) == 1), R(v) == vals[0][1].t))
        moved('searched along the search direction', vals[0][0], x, t, cellwise(sd))
        moved('its answer is the step', y, x, s0, cellwise(sd))
        cover('searched')
    us.append(Unit(E, 'SearchDirectionOptimizer: line search', d_search))

    # ---------------------------------------------------------------- search directions
    def d_momentum():
        M, c = E.load(OPT), ctx()
        m = symreal('momentum')
        o, err = raised(lambda: M.GradientDescent(momentum=m, step_size=symreal_pos('s')), ValueError)
        prove('momentum outside zero and one is rejected', And(m.t >= 0, m.t <= 1) == z3.BoolVal(err is None))
        if err is not None:
            return
        N, D, x, g, it = point()
        s, rg = o_step(o, it), cellwise(g)
        moved('first step: damped gradient', o._advance(result(x, g, it), nofunc, nofunc), x, s, lambda i, j: (1 - m.t) * rg(i, j))
        if not hasattr(o, 'v'):
            c.unsupported('no velocity named v')
        v = mat('v', N, D)
        rv = cellwise(v)
        o.v = v
        want = lambda i, j: m.t * rv(i, j) + (1 - m.t) * rg(i, j)
        moved('next steps: running average of the gradients', o._advance(result(x, g, it), nofunc, nofunc), x, s, want)
        h = mat('h', N, D)
        rh = cellwise(h)
        moved('carried to the following step', o._advance(result(x, h, it), nofunc, nofunc), x, s, lambda i, j: m.t * want(i, j) + (1 - m.t) * rh(i, j))
        o._reset()
        moved('forgotten by a reset', o._advance(result(x, g, it), nofunc, nofunc), x, s, lambda i, j: (1 - m.t) * rg(i, j))
        cover('stepped')

    def symreal_pos(n):
        s = symreal(n)
        assume(s.t > 0)
        return s

    def o_step(o, it):
        """the (fixed) step size of an optimiser, proved in the unit of the schedules"""
        return o._step_size_scheduler(result(None, None, it), nofunc) if hasattr(o, '_step_size_scheduler') else ctx().unsupported('no scheduler')
    us.append(Unit(E, 'GradientDescent', d_momentum))

    def d_noise():
        M = E.load(OPT)
        o = M.NoisyGradientDescent(step_size=symreal_pos('s'))
        N, D, x, g, it = point()
        g0 = g.copy()
        rg = cellwise(g)
        drawn = []
        np = vars(M)['np']

        class Rnd:
            def __getattr__(self, k):
                return getattr(np.random, k)

            @staticmethod
            def normal(loc=0.0, scale=1.0, size=None):
                r = npstub.normal(loc, scale, size)
                drawn.append((toarr(r).copy(), loc, scale))
                return r

        class NP:
            random = Rnd()

            def __getattr__(self, k):
                return getattr(np, k)
        swap(M, 'np', NP())
        res = result(x, g, it)
        y = o._advance(res, nofunc, nofunc)
        prove('one draw of standard noise', z3.BoolVal(len(drawn) == 1 and drawn[0][1] == 0 and drawn[0][2] == 1))
        z = drawn[0][0]
        nz, rz = npstub.norm(z), cellwise(z)
        prove('one noise value per weight', And(z3.BoolVal(z.ndim == 2), dterm(z.shape[0]) == N.t, dterm(z.shape[1]) == D.t))
        i, j = ctx().const('a', Int), ctx().const('b', Int)
        assume(i >= 0, i < N.t, j >= 0, j < D.t)
        assume(R(nz) > 0)
        ry, rx = cellwise(y), cellwise(x)
        prove('gradient plus a noise of unit length', ry(i, j) == rx(i, j) - R(o_step(o, it)) * (rg(i, j) + rz(i, j) / R(nz)))
        cover('stepped')
    us.append(Unit(E, 'NoisyGradientDescent', d_noise))

    def d_adam():
        M, c = E.load(OPT), ctx()
        b1, b2, eps = symreal('b1'), symreal('b2'), symreal('eps')
        o, err = raised(lambda: M.Adam(beta1=b1, beta2=b2, epsilon=eps, step_size=symreal_pos('s')), ValueError)
        prove('decay rates outside zero and one and a non-positive epsilon are rejected',
              And(b1.t >= 0, b1.t <= 1, b2.t >= 0, b2.t <= 1, eps.t > 0) == z3.BoolVal(err is None))
        if err is not None:
            return
        assume(b1.t < 1, b2.t < 1)
        N, D, x, g, it = point()
        s, rg = o_step(o, it), cellwise(g)

        def direction(m, v, t):
            """m / (1 - b1^t) / (sqrt(v / (1 - b2^t)) + eps)"""
            p1, p2 = t_(1 - b1 ** t), t_(1 - b2 ** t)
            return lambda i, j: (m(i, j) / p1) / (funcs.sqrt(v(i, j) / p2) + eps.t)
        avg = lambda b, old, new: lambda i, j: b.t * old(i, j) + (1 - b.t) * new(i, j)
        zero, sq = (lambda i, j: z3.RealVal(0)), (lambda f: lambda i, j: f(i, j) * f(i, j))
        first = direction(avg(b1, zero, rg), avg(b2, zero, sq(rg)), it + 1)
        moved('first step', o._advance(result(x, g, it), nofunc, nofunc), x, s, first)
        if not (hasattr(o, '_mt') and hasattr(o, '_vt')):
            c.unsupported('no running averages named _mt, _vt')
        m, v = mat('m', N, D), mat('v', N, D)
        o._mt, o._vt = m, v
        rm, rv = cellwise(m), cellwise(v)
        m1, v1 = avg(b1, rm, rg), avg(b2, rv, sq(rg))
        moved('next steps: running averages, corrected for their start', o._advance(result(x, g, it), nofunc, nofunc), x, s, direction(m1, v1, it + 1))
        h = mat('h', N, D)
        rh = cellwise(h)
        moved('carried to the following step', o._advance(result(x, h, it + 1), nofunc, nofunc), x, s,
              direction(avg(b1, m1, rh), avg(b2, v1, sq(rh)), it + 2))
        o._reset()
        moved('forgotten by a reset', o._advance(result(x, g, it), nofunc, nofunc), x, s, first)
        cover('stepped')
    us.append(Unit(E, 'Adam', d_adam))

    # ---------------------------------------------------------------- proximal methods
    def prox_opt(cls):
        M = E.load(OPT)
        opt, good, step = options()
        assume(good)
        o = getattr(M, cls)(penalty_term=Part('pen', []), **opt)
        log = []

        def prox(x, g, s):
            r = mat('px', *x.shape)
            log.append((toarr(x).copy(), toarr(g).copy(), s, r))
            return r
        restub1(o, '_proximal_step', prox)
        return o, step, log

    def d_prox():
        o, step, log = prox_opt('ProximalGradientDescent')
        N, D, x, g, it = point()
        y = o._advance(result(x, g, it), nofunc, nofunc)
        prove('one proximal step from the current point and gradient, with the documented step', And(
            z3.BoolVal(len(log) == 1), same_array(log[0][0], x), same_array(log[0][1], g), R(log[0][2]) == R(step(it))))
        prove('to the next point', same_array(y, log[0][3]))
        cover('stepped')
    us.append(Unit(E, 'ProximalGradientDescent._advance', d_prox))

    def d_fista():
        c = ctx()
        o, step, log = prox_opt('FISTA')
        N, D, x, g, it = point()
        if not (hasattr(o, 'y') and hasattr(o, 'theta')):
            c.unsupported('no momentum state named y, theta')
        fresh_run = bool(c.choose(2))
        if fresh_run:
            o.y, o.theta = mat('old', N, D), symreal('old')
            o._reset()
            y, th = x, z3.RealVal(1)
        else:
            y, th = mat('y', N, D), symreal('theta').t
            assume(th >= 1)
            o.y, o.theta = y, wrap(th)
        x0, y0, ry0, rx0 = x.copy(), y.copy(), cellwise(y), cellwise(x)
        at = []

        def grad(z):
            r = mat('gz', N, D)
            at.append((toarr(z).copy(), r))
            return r
        nx = o._advance(result(x, g, it), nofunc, grad)
        prove('one gradient, at the extrapolated point (the starting point of a run)', And(z3.BoolVal(len(at) == 1), same_array(at[0][0], y0)))
        prove('one proximal step from there, with the documented step', And(
            z3.BoolVal(len(log) == 1), same_array(log[0][0], y0), same_array(log[0][1], at[0][1]), R(log[0][2]) == R(step(it))))
        prove('to the next point', same_array(nx, log[0][3]))
        th2, yn, rn = R(o.theta), cellwise(o.y), cellwise(nx)
        prove('momentum weight: th^2 - th = (previous th)^2', And(th2 * th2 - th2 == th * th, th2 >= 1))
        i, j = c.const('i', Int), c.const('j', Int)
        assume(i >= 0, i < N.t, j >= 0, j < D.t)
        prove('extrapolation by the momentum', yn(i, j) == rn(i, j) + (th - 1) / th2 * (rn(i, j) - rx0(i, j)))
        prove('the current point is unchanged', same_array(x, x0))
        cover('first' if fresh_run else 'later')
    us.append(Unit(E, 'FISTA._advance', d_fista))

    # ---------------------------------------------------------------- BFGS
    def d_bfgs():
        M, c = E.load(OPT), ctx()
        gtol = symreal('gtol')
        assume(gtol.t >= 0)
        budget = symint('budget') if c.choose(2) else None
        if budget is not None:
            assume(budget.t >= 1)
        cb = [None, lambda x: None][c.choose(2)]
        o = M.BFGS(gtol=gtol, max_iter=budget, callback=cb)
        N, D = size('N', 1), size('D', 1)
        x0, calls, ans = mat('x0', N, D), [], object()
        swap(M, 'minimize', lambda *a, **k: calls.append((a, k)) or ans)
        g, at = mat('g', N, D), []
        f = lambda x: None
        r = o.minimize(x0, f, lambda x: at.append(x) or g)
        a, k = calls[0]
        k = dict(k, **dict(zip(('fun', 'x0'), a)))
        prove('one call, its answer is returned', z3.BoolVal(len(calls) == 1 and r is ans))
        if not isinstance(k['x0'], Carried):
            c.unsupported('starting point of another form')
        prove('of the given objective from the (flattened) starting point', And(
            z3.BoolVal(k['fun'] is f and k.get('callback') is cb and k['x0'].mask is None), same_array(k['x0'].arr, x0)))
        prove('tolerance and budget are handed over', And(R(k['options']['gtol']) == gtol.t, t_(k['options']['maxiter']) == budget.t if budget is not None
              else z3.BoolVal(k['options'].get('maxiter') in (None, math.inf))))
        z = vec('z', size('m', 1))
        jz = k['jac'](z)
        if not isinstance(jz, Carried):
            c.unsupported('gradient of another form')
        prove('the gradient is the given one, flattened', And(z3.BoolVal(len(at) == 1 and at[0] is z and jz.mask is None), same_array(jz.arr, g)))
        cover('delegated')
    us.append(Unit(E, 'BFGS.minimize', d_bfgs))

    from . import structure
    us += [u for u in structure.units(E, 'C27') if u.name == 'LinearFactorizationLearner.fit']
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
