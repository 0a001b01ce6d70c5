"""Contracts of the penalty terms: loss, gradient, proximal operator, optimality test (C18)."""
from pyvc import funcs
from pyvc.reduce import _rows, equal_sums, equate_sums, reduce1, sum_rule, telescope_rule

from .common import *
from .explore import raised
from .kernels import total
from .sampler import restub, restub1

PEN = 'aideme.active_learning.factorization.penalty'
UT = 'aideme.active_learning.factorization.utils'
OPT = 'aideme.active_learning.factorization.optimization'

FUNCTIONS = {'C18': ['PenaltyTerm.penalty', 'L1Penalty.loss/grad/proximal/is_subgradient', 'L2Penalty.loss/grad/proximal',
                     'L2SqrtPenalty.loss/grad/proximal/is_subgradient/groups', 'SparseGroupLassoPenalty.loss/grad/proximal/is_subgradient/groups/penalty',
                     'InteractionPenalty.loss/grad', 'HuberPenalty.loss/grad', 'utils.pyx: compute_huber_penalty (C types stripped)',
                     'ProximalGradientDescent/FISTA._proximal_step/_gradient_converged']}
ASSUMPTIONS = {'C18': ['groups of columns: none, or any partition of the columns into any number of groups',
                       'finite sums by their recursion (linearity, telescoping, extensionality); Cauchy-Schwarz is derived, not assumed',
                       'a proximal operator that minimises the cost of every row (of every group) minimises the total',
                       'the composition of both operators of SparseGroupLassoPenalty is proved to be the minimiser for single-weight groups (no groups given); with '
                       'groups the composition itself is proved, its optimality is checked by the harness (bounded)']}


def R(x):
    return to_real(as_term(x))


def absv(t):
    return If(t >= 0, t, -t)


def sgn(t):
    return If(t > 0, z3.RealVal(1), If(t < 0, z3.RealVal(-1), z3.RealVal(0)))


def thr(a, t):
    """soft threshold"""
    return sgn(a) * If(absv(a) >= t, absv(a) - t, z3.RealVal(0))


def single_rule(name, n, k0, v):
    """a sum with one non-zero term"""
    s, = telescope_rule(name, n, lambda j: If(j <= k0, v, z3.RealVal(0)), (1, lambda j: If(j == k0, v, z3.RealVal(0))))
    return s


def cauchy_schwarz(name, n, f, g):
    """|sum f g| <= norm(f) norm(g), from the sums of the squares of  norm(g) f -+ norm(f) g"""
    A, B, C = total(lambda k: f(k) * f(k), n), total(lambda k: g(k) * g(k), n), total(lambda k: f(k) * g(k), n)
    prove(name + ': sums of squares', And(A >= 0, B >= 0))
    a, b = funcs.sqrt(A), funcs.sqrt(B)
    prove(name + ': norms', And(a >= 0, b >= 0, a * a == A, b * b == B))
    for s in (1, -1):
        Q = total(lambda k: (b * f(k) + s * a * g(k)) * (b * f(k) + s * a * g(k)), n)
        sum_rule(name + ': expansion', n, (1, lambda k: (b * f(k) + s * a * g(k)) * (b * f(k) + s * a * g(k))), (-(b * b), lambda k: f(k) * f(k)),
                 (-(a * a), lambda k: g(k) * g(k)), (-2 * s * a * b, lambda k: f(k) * g(k)))
        prove(name + ': a sum of squares', Q >= 0)
        derive(name + ': expansion %d' % s, Implies(a * b > 0, -s * C <= a * b), Q >= 0, Q == b * b * A + a * a * B + 2 * s * a * b * C, a * a == A, b * b == B, a >= 0,
               b >= 0, general=(a, b, A, B, C, Q))
    # a factor of norm zero vanishes everywhere
    for S, h, nm in ((A, f, 'first'), (B, g, 'second')):
        every(name + ': %s factor' % nm, 0, dterm_(n), lambda k: Implies(S == 0, h(k) == 0),
              how=lambda k, S=S, h=h: prove(name + ': a term of the sum', Implies(S == 0, h(k) * h(k) <= S)))
        prove(name + ': with a zero %s factor' % nm, Implies(S == 0, C == 0))
    derive(name, And(C <= a * b, -C <= a * b), Implies(a * b > 0, C <= a * b), Implies(a * b > 0, -C <= a * b), a >= 0, b >= 0, a * a == A, b * b == B,
           Implies(A == 0, C == 0), Implies(B == 0, C == 0), general=(a, b, A, B, C))
    return A, B, C, a, b


def dterm_(n):
    return n.t if hasattr(n, 't') else z3.IntVal(n)


class Part:
    """a penalty term by contract: every call is recorded, answers are arbitrary"""
    __pvobject__ = True

    def __init__(self, name, log):
        self._pv_name, self._pv_log = name, log

    def _mat(self, kind, x, *a):
        x = toarr(x)
        r = mat(self._pv_name + kind, *x.shape)
        self._pv_log.append((self._pv_name, kind, x.copy(), a, r))
        return r

    def loss(self, x):
        r = symreal('loss')
        self._pv_log.append((self._pv_name, 'loss', toarr(x).copy(), (), r))
        return r

    def grad(self, x):
        return self._mat('grad', x)

    def proximal(self, x, eta):
        return self._mat('prox', x, eta)

    def is_subgradient(self, v, x, tol):
        r = symbool('near')
        self._pv_log.append((self._pv_name, 'near', toarr(v).copy(), (toarr(x).copy(), tol), r))
        return r


def units_C18(E):
    us = []

    def setup(N=None, D=None):
        c = ctx()
        P = E.load(PEN)
        N, D = N if N is not None else size('N', 1), D if D is not None else size('D', 1)
        x = mat('x', N, D)
        x0 = x.copy()
        lam, eta = symreal('lam'), symreal('eta')
        assume(lam.t > 0, eta.t > 0)
        return c, P, N, D, x, x0, x0.reader(), lam, eta

    def cellpos(c, N, D):
        i, k = c.const('i', Int), c.const('k', Int)
        assume(i >= 0, i < N.t, k >= 0, k < D.t)
        return i, k

    def same_shape(name, r, N, D):
        r = toarr(r)
        prove(name + ': one entry per weight', And(z3.BoolVal(r.ndim == 2), dterm(r.shape[0]) == N.t, dterm(r.shape[1]) == D.t))
        rd = r.reader()
        return lambda *ix: to_real(rd(*ix))

    def rowsum(N, D, f):
        """sum over all weights of f(i, k)"""
        rows = _rows([dim_wrap(N.t)], lambda i: total(lambda k: f(i, k), D)).reader()
        return total(rows, N)

    # ---------------------------------------------------------------- L1
    def d_l1():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        o = P.L1Penalty(lam)
        v = o.loss(x)
        prove('sum of the absolute values, times the penalty', R(v) == lam.t * rowsum(N, D, lambda i, k: absv(rx(i, k))))
        g, p = same_shape('gradient', o.grad(x), N, D), same_shape('proximal', o.proximal(x, eta), N, D)
        i, k = cellpos(c, N, D)
        h = c.const('h', Real)
        prove('gradient: sign of the weight', g(i, k) == lam.t * sgn(rx(i, k)))
        prove('the gradient is the slope around any non-zero weight',
              Implies(And(rx(i, k) != 0, absv(h) < absv(rx(i, k))), lam.t * absv(rx(i, k) + h) == lam.t * absv(rx(i, k)) + g(i, k) * h))
        prove('shrinking towards zero, never flipping a sign', And(p(i, k) * rx(i, k) >= 0, absv(p(i, k)) <= absv(rx(i, k)), Implies(rx(i, k) == 0, p(i, k) == 0)))
        z = c.func('z', Int, Int, Real)
        prove('soft threshold', p(i, k) == thr(rx(i, k), lam.t * eta.t))
        lemma = Lemma('soft threshold minimises', 4, lambda l, e, a, b: Implies(And(l > 0, e > 0), And(
            2 * e * l * absv(thr(a, l * e)) + (a - thr(a, l * e)) * (a - thr(a, l * e)) <= 2 * e * l * absv(b) + (a - b) * (a - b))))

        def how(k2):
            a, b, q = rx(i, k2), z(i, k2), p(i, k2)
            prove('soft threshold at a weight', q == thr(a, lam.t * eta.t))
            lemma.use(lam.t, eta.t, a, b)
            prove('no other value is better', 2 * eta.t * lam.t * absv(q) + (a - q) * (a - q) <= 2 * eta.t * lam.t * absv(b) + (a - b) * (a - b))
        cost = lambda q: lambda k2: 2 * eta.t * lam.t * absv(q(i, k2)) + (rx(i, k2) - q(i, k2)) * (rx(i, k2) - q(i, k2))
        every('every weight', 0, D.t, lambda k2: cost(p)(k2) <= cost(z)(k2), how)
        prove('the proximal operator minimises the penalised squared distance of a row', total(cost(p), D) <= total(cost(z), D))
        prove('the weights are unchanged', same_array(x, x0))
        cover('computed')
    us.append(Unit(E, 'L1Penalty', d_l1))

    def d_l1_test():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        o = P.L1Penalty(lam)
        v, tol = mat('v', N, D), symreal('tol')
        assume(tol.t >= 0)
        rv = v.copy().reader()
        r = as_term(o.is_subgradient(v, x, tol))
        i, k = cellpos(c, N, D)
        far = lambda i, k: If(rx(i, k) == 0, absv(rv(i, k)) > lam.t + tol.t, absv(rv(i, k) - lam.t * sgn(rx(i, k))) > tol.t)
        prove('accepted: within the tolerance of a subgradient everywhere', Implies(r, Not(far(i, k))))
        prove('rejected: only when some entry is too far from every subgradient', Or(r, Not(Forall(
            [Int, Int], lambda a, b: Implies(And(a >= 0, a < N.t, b >= 0, b < D.t), Not(far(a, b))), lambda a, b: [rv(a, b)]))))
        prove('the weights are unchanged', same_array(x, x0))
        cover('tested')
    us.append(Unit(E, 'L1Penalty.is_subgradient', d_l1_test))

    # ---------------------------------------------------------------- L2
    def d_l2():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        o = P.L2Penalty(lam)
        v = o.loss(x)
        g, p = same_shape('gradient', o.grad(x), N, D), same_shape('proximal', o.proximal(x, eta), N, D)
        i, k = cellpos(c, N, D)
        h = c.const('h', Real)
        a = rx(i, k)
        prove('the gradient is the derivative of the square', lam.t * (a + h) * (a + h) == lam.t * a * a + g(i, k) * h + lam.t * h * h)
        lemma = Lemma('shrinking minimises', 5, lambda l, e, a, b, q: Implies(And(l > 0, e > 0, q * (2 * e * l + 1) == a), And(
            2 * e * l * q * q + (a - q) * (a - q) <= 2 * e * l * b * b + (a - b) * (a - b), q * a >= 0, q * q <= a * a, Implies(a == 0, q == 0))))
        z = c.func('z', Int, Int, Real)

        def how(k2):
            lemma.use(lam.t, eta.t, rx(i, k2), z(i, k2), p(i, k2))
        cost = lambda q: lambda k2: 2 * eta.t * lam.t * q(i, k2) * q(i, k2) + (rx(i, k2) - q(i, k2)) * (rx(i, k2) - q(i, k2))
        how(k)
        derive('closed form', p(i, k) * (2 * eta.t * lam.t + 1) == a, p(i, k) == a / (2 * eta.t * lam.t + 1), lam.t > 0, eta.t > 0, general=(p(i, k), a))
        prove('shrinking towards zero, never flipping a sign', And(p(i, k) * a >= 0, p(i, k) * p(i, k) <= a * a, Implies(a == 0, p(i, k) == 0)))
        prove('the proximal operator minimises the penalised squared distance of a weight', cost(p)(k) <= cost(z)(k))
        prove('the weights are unchanged', same_array(x, x0))
        prove('sum of the squares, times the penalty', R(v) == lam.t * rowsum(N, D, lambda i, k: rx(i, k) * rx(i, k)))
        cover('computed')
    us.append(Unit(E, 'L2Penalty', d_l2))

    # ---------------------------------------------------------------- group norms
    cell = {}

    def grouped(kind, x, N, D, c):
        """groups of columns: none (one group of all columns) or any partition of the columns into any number of groups"""
        if kind == 'all':
            return None, None
        m = size('m', 1)
        G, ln, grp, pos = c.func('G', Int, Int, Int), c.func('len', Int, Int), c.func('grp', Int, Int), c.func('pos', Int, Int)
        inr = lambda k: And(k >= 0, k < D.t)
        assume(Forall([Int, Int], lambda j, s: Implies(And(j >= 0, j < m.t, s >= 0, s < ln(j)), And(
            inr(G(j, s)), grp(G(j, s)) == j, pos(G(j, s)) == s)), lambda j, s: [G(j, s)]))
        assume(forall(0, m.t, lambda j: ln(j) >= 0, lambda j: [ln(j)]))
        assume(Forall([Int], lambda k: Implies(inr(k), And(grp(k) >= 0, grp(k) < m.t, pos(k) >= 0, pos(k) < ln(grp(k)), G(grp(k), pos(k)) == k)), lambda k: [grp(k)]))

        def group(j):
            j = z3.simplify(as_term(j))
            assume(Implies(And(j >= 0, j < m.t), ln(j) >= 0))
            a = Arr.make((dim_wrap(ln(j)),), 'int', lambda s: G(j, s))
            a.nonneg = True
            return a
        return SymList.of(m, group), dict(m=m, G=G, len=ln, grp=grp, pos=pos)

    def sumsq(rx, gi, D, i, j):
        """sum of the squares of the weights of row i in group j"""
        if gi is None:
            return total(lambda k: rx(i, k) * rx(i, k), D)
        return total(lambda s: rx(i, gi['G'](j, s)) * rx(i, gi['G'](j, s)), dim_wrap(gi['len'](j)))

    def ghost_norms(c, rx, gi, N, D):
        """N2(i, j): the sum of the squares, by its definition where needed"""
        N2 = c.func('N2', Int, Int, Real)

        def define(j):
            rows = _rows([dim_wrap(N.t)], lambda i: sumsq(rx, gi, D, i, j)).reader()
            assume(forall(0, N.t, lambda i: And(N2(i, j) == rows(i)), lambda i: [N2(i, j)]))
            assume(forall(0, N.t, lambda i: And(N2(i, j) == rows(i)), lambda i: [rows(i)]))
        return N2, define

    def group_setup(kind):
        c, P, N, D, x, x0, rx, lam, eta = setup()
        groups, gi = grouped(kind, x, N, D, c)
        o = P.L2SqrtPenalty(lam, groups)
        N2, define = ghost_norms(c, rx, gi, N, D)
        cell.clear()
        cell.update(N2=N2, define=define, rx=rx, gi=gi, N=N, D=D, lam=lam, eta=eta)
        if gi is None:
            define(z3.IntVal(0))
        grp = (lambda k: z3.IntVal(0)) if gi is None else (lambda k: gi['grp'](k))
        return c, P, N, D, x, x0, rx, lam, eta, o, gi, N2, define, grp

    def shrink(s2, a):
        """factor of the group soft threshold for a group of squared norm s2"""
        s = funcs.sqrt(s2)
        f = 1 - If(s > 0, a / s, z3.RealVal(0))
        return If(f <= 0, z3.RealVal(0), f)

    def optimal(c, n, X, PR, A, lam, eta, F):
        """PR = shrink(|X|^2) X minimises  lam |Z| + |X - Z|^2 / (2 eta)  over all Z (rows of one group)"""
        z = c.func('z', Int, Real)
        a = lam * eta
        A2, B, C, s, t = cauchy_schwarz('Cauchy-Schwarz', n, X, z)
        f = F

        def scaled(k, goal):
            prove('a weight of the result', PR(k) == X(k) * F)
            Q = c.const('Q', Real)
            assume(Q == PR(k))
            derive('squares', z3.substitute(goal, (PR(k), Q)), Q == X(k) * F, general=(X(k),))
        PP = total(lambda k: PR(k) * PR(k), n)
        sum_rule('norm of the result', n, (1, lambda k: PR(k) * PR(k)), (-(f * f), lambda k: X(k) * X(k)), how=scaled)
        DP, DZ = total(lambda k: (X(k) - PR(k)) * (X(k) - PR(k)), n), total(lambda k: (X(k) - z(k)) * (X(k) - z(k)), n)
        sum_rule('distance of the result', n, (1, lambda k: (X(k) - PR(k)) * (X(k) - PR(k))), (-((1 - f) * (1 - f)), lambda k: X(k) * X(k)), how=scaled)
        sum_rule('distance of another value', n, (1, lambda k: (X(k) - z(k)) * (X(k) - z(k))), (-1, lambda k: X(k) * X(k)), (-1, lambda k: z(k) * z(k)), (2, lambda k: X(k) * z(k)))
        u = funcs.sqrt(PP)
        c.memo['optimal'] = (z, u, s, t)
        prove('norms', And(u >= 0, PP >= 0, u * u == PP, s >= 0, t >= 0, s * s == A, t * t == B, a > 0))
        FF = F == If(1 - If(s > 0, a / s, z3.RealVal(0)) <= 0, z3.RealVal(0), 1 - If(s > 0, a / s, z3.RealVal(0)))
        prove('the factor', FF)
        derive('the factor shrinks', And(F >= 0, F <= 1, Implies(s > 0, F * s == If(s >= a, s - a, z3.RealVal(0)))), FF, s >= 0, a > 0, general=(s, lam, eta))
        prove('squares', And(PP == F * F * A, DP == (1 - F) * (1 - F) * A, DZ == A + B - 2 * C))
        derive('norm of the result is the shrunk norm', u == F * s, u >= 0, s >= 0, F >= 0, u * u == PP, PP == F * F * A, s * s == A, general=(u, s, PP, A))
        derive('shrinking never grows', u <= s, u == F * s, F >= 0, F <= 1, s >= 0, general=(u, s))
        derive('distance of another value is at least that of the norms', DZ >= (s - t) * (s - t), DZ == A + B - 2 * C, s * s == A, t * t == B, C <= s * t, general=(DZ, A, B, C, s, t))
        derive('distance of the result', DP == (s - u) * (s - u), DP == (1 - F) * (1 - F) * A, s * s == A, u == F * s, general=(DP, A, u, s))
        derive('the result is the best among the norms', 2 * a * u + (s - u) * (s - u) <= 2 * a * t + (s - t) * (s - t), u == F * s,
               Implies(s > 0, F * s == If(s >= a, s - a, z3.RealVal(0))), F >= 0, s >= 0, t >= 0, a > 0, general=(u, s, t, a))
        derive('the proximal operator minimises the penalised squared distance of the group', 2 * a * u + DP <= 2 * a * t + DZ,
               2 * a * u + (s - u) * (s - u) <= 2 * a * t + (s - t) * (s - t), DP == (s - u) * (s - u), DZ >= (s - t) * (s - t), general=(u, s, t, a, DP, DZ))

    def d_group_prox(kind):
        def drv():
            c, P, N, D, x, x0, rx, lam, eta, o, gi, N2, define, grp = group_setup(kind)
            p = same_shape('proximal', o.proximal(x, eta), N, D)
            i, k = cellpos(c, N, D)
            a = lam.t * eta.t
            j = grp(k)
            assume(touch(p(i, k) == 0))
            if gi is not None:
                assume(touch(gi['grp'](k) == 0))
            define(j)
            prove('group soft threshold', p(i, k) == rx(i, k) * shrink(N2(i, j), a))
            n = D if gi is None else dim_wrap(gi['len'](j))
            G = (lambda s: s) if gi is None else (lambda s: gi['G'](j, s))
            X = lambda s: rx(i, G(s))
            A = total(lambda s: X(s) * X(s), n)
            equate_sums(i)
            prove('squared norm of the group', N2(i, j) == A)
            F = c.const('F', Real)
            assume(F == shrink(A, a))
            every('every weight of the group', 0, dterm_(n), lambda s: p(i, G(s)) == X(s) * F,
                  how=lambda s: prove('groups are disjoint', And(grp(G(s)) == j, touch(p(i, G(s)) == 0), G(s) >= 0, G(s) < D.t)), pats=None if gi is None else (lambda s: [G(s)]))
            optimal(c, n, X, lambda s: p(i, G(s)), A, lam.t, eta.t, F)
            prove('the weights are unchanged', same_array(x, x0))
            cover('computed')
        return drv

    def prox_inv(L, t, g):
        q = cell
        res = L['res']
        if not isinstance(res, Arr):
            raise TypeError('res')
        rd, a = res.reader(), q['lam'].t * q['eta'].t
        grp = q['gi']['grp']
        dom = lambda i, k: And(i >= 0, i < q['N'].t, k >= 0, k < q['D'].t)
        return [('groups treated so far', Forall([Int, Int], lambda i, k: Implies(dom(i, k), And(grp(k) >= 0, to_real(rd(i, k)) == If(
            grp(k) < t, q['rx'](i, k) * shrink(q['N2'](i, grp(k)), a), q['rx'](i, k)))), lambda i, k: [rd(i, k)])),
            ('shape', And(dterm(res.shape[0]) == q['N'].t, dterm(res.shape[1]) == q['D'].t))]

    def group_lemma(L, t, g):
        cell['define'](t)
        return []
    for kind in ('all', 'groups'):
        us.append(Unit(E, 'L2SqrtPenalty.proximal (%s)' % kind, d_group_prox(kind), {'L2SqrtPenalty.proximal:for#1': LoopSpec(inv=prox_inv, lemma=group_lemma)}))
    def coeff(s2, lam):
        s = funcs.sqrt(s2)
        return If(s > 0, lam / s, z3.RealVal(0))

    def d_group_grad(kind):
        def drv():
            c, P, N, D, x, x0, rx, lam, eta, o, gi, N2, define, grp = group_setup(kind)
            g = same_shape('gradient', o.grad(x), N, D)
            i, k = cellpos(c, N, D)
            j = grp(k)
            assume(touch(g(i, k) == 0))
            if gi is not None:
                assume(touch(gi['grp'](k) == 0))
            define(j)
            prove('gradient of the norm of the group: direction of the weights, zero for zero weights', g(i, k) == rx(i, k) * coeff(N2(i, j), lam.t))
            n = D if gi is None else dim_wrap(gi['len'](j))
            G = (lambda s: s) if gi is None else (lambda s: gi['G'](j, s))
            X, V = lambda s: rx(i, G(s)), lambda s: g(i, G(s))
            A = total(lambda s: X(s) * X(s), n)
            equate_sums(i)
            prove('squared norm of the group', N2(i, j) == A)
            F = c.const('F', Real)
            assume(F == coeff(A, lam.t))
            every('every weight of the group', 0, dterm_(n), lambda s: V(s) == X(s) * F,
                  how=lambda s: prove('groups are disjoint', And(grp(G(s)) == j, touch(V(s) == 0), G(s) >= 0, G(s) < D.t)), pats=None if gi is None else (lambda s: [G(s)]))
            z = c.func('z', Int, Real)
            A2, B, C, s, t = cauchy_schwarz('Cauchy-Schwarz', n, X, z)
            W = total(lambda k: V(k) * (z(k) - X(k)), n)

            def scaled(k, goal):
                prove('an entry of the gradient', V(k) == X(k) * F)
                Q = c.const('Q', Real)
                assume(Q == V(k))
                derive('products', z3.substitute(goal, (V(k), Q)), Q == X(k) * F, general=(X(k), z(k)))
            sum_rule('slope towards another value', n, (1, lambda k: V(k) * (z(k) - X(k))), (-F, lambda k: X(k) * z(k)), (F, lambda k: X(k) * X(k)), how=scaled)
            FF = F == If(s > 0, lam.t / s, z3.RealVal(0))
            prove('the factor', FF)
            derive('the factor times the norm', And(F >= 0, Implies(s > 0, F * s == lam.t)), FF, s >= 0, lam.t > 0, general=(s,))
            prove('slope', W == F * (C - A))
            derive('the gradient is a supporting slope of the norm (the derivative wherever the norm is not zero)', lam.t * t >= lam.t * s + W,
                   W == F * (C - A), F >= 0, Implies(s > 0, F * s == lam.t), FF, C <= s * t, s * s == A, s >= 0, t >= 0, lam.t > 0, general=(s, t, A, C, W))
            prove('the weights are unchanged', same_array(x, x0))
            cover('computed')
        return drv

    def grad_inv(L, t, g):
        q = cell
        res = L['res']
        if not isinstance(res, Arr):
            raise TypeError('res')
        rd, grp = res.reader(), q['gi']['grp']
        dom = lambda i, k: And(i >= 0, i < q['N'].t, k >= 0, k < q['D'].t)
        return [('groups treated so far', Forall([Int, Int], lambda i, k: Implies(dom(i, k), And(grp(k) >= 0, to_real(rd(i, k)) == If(
            grp(k) < t, q['rx'](i, k) * coeff(q['N2'](i, grp(k)), q['lam'].t), z3.RealVal(0)))), lambda i, k: [rd(i, k)])),
            ('shape', And(dterm(res.shape[0]) == q['N'].t, dterm(res.shape[1]) == q['D'].t))]
    for kind in ('all', 'groups'):
        us.append(Unit(E, 'L2SqrtPenalty.grad (%s)' % kind, d_group_grad(kind), {'L2SqrtPenalty.grad:for#1': LoopSpec(inv=grad_inv, lemma=group_lemma)}))

    def d_group_loss(kind):
        def drv():
            c, P, N, D, x, x0, rx, lam, eta, o, gi, N2, define, grp = group_setup(kind)
            norms = lambda j: total(lambda i: funcs.sqrt(N2(i, j)), N)
            if gi is None:
                v = o.loss(x)
                s = norms(z3.IntVal(0))
                equate_sums()
            else:
                T = c.func('T', Int, Real)
                assume(T(z3.IntVal(0)) == 0)
                by = _rows([dim_wrap(gi['m'].t)], norms).reader()

                def unfold(j):
                    define(j)
                    assume(Implies(And(j >= 0, j < gi['m'].t), T(z3.simplify(j + 1)) == T(j) + by(j)))
                    rows = _rows([dim_wrap(N.t)], lambda i: sumsq(rx, gi, D, i, j)).reader()
                    a, b = total(lambda i: funcs.sqrt(rows(i)), N), total(lambda i: funcs.sqrt(N2(i, j)), N)
                    prove('norms of the group', Implies(And(j >= 0, j < gi['m'].t), a == b))
                    equate_sums(j)
                    prove('a group', Implies(And(j >= 0, j < gi['m'].t), a == by(j)))
                cell.update(T=T, unfold=unfold)
                v = o.loss(x)
                s, = telescope_rule('sum over the groups', gi['m'], lambda j: -T(j), (1, by), how=unfold)
            prove('sum of the norms of the groups of every row, times the penalty', R(v) == lam.t * s)
            prove('the weights are unchanged', same_array(x, x0))
            cover('computed')
        return drv

    def loss_inv(L, t, g):
        return [('so far', R(L['s']) == cell['T'](t))]

    def loss_lemma(L, t, g):
        cell['unfold'](t)
        return []
    for kind in ('all', 'groups'):
        us.append(Unit(E, 'L2SqrtPenalty.loss (%s)' % kind, d_group_loss(kind), {'L2SqrtPenalty.loss:for#1': LoopSpec(
            inv=loss_inv, lemma=loss_lemma, types={'s': lambda c: SymNum(c.const('s', Real))})}))
    def d_group_test(kind):
        def drv():
            c, P, N, D, x, x0, rx, lam, eta, o, gi, N2, define, grp = group_setup(kind)
            v, tol = mat('v', N, D), symreal('tol')
            assume(tol.t >= 0)
            rv = v.copy().reader()
            U2 = c.func('U2', Int, Int, Real)
            G = (lambda j, s: s) if gi is None else gi['G']

            def unit(i, j, k):
                s = funcs.sqrt(N2(i, j))
                return If(s > 0, rx(i, k) / s, z3.RealVal(0))

            def dist(j):
                define(j)
                n = D if gi is None else dim_wrap(gi['len'](j))
                df = lambda i, s: rv(i, G(j, s)) - lam.t * unit(i, j, G(j, s))
                rows = _rows([dim_wrap(N.t)], lambda i: total(lambda s: df(i, s) * df(i, s), n)).reader()
                assume(forall(0, N.t, lambda i: U2(i, j) == rows(i), lambda i: [U2(i, j)]), forall(0, N.t, lambda i: U2(i, j) == rows(i), lambda i: [rows(i)]))
            far = lambda i, j: funcs.sqrt(U2(i, j)) - If(funcs.sqrt(N2(i, j)) > 0, z3.RealVal(0), lam.t) > tol.t
            cell.update(dist=dist, far=far, U2=U2)
            if gi is None:
                dist(z3.IntVal(0))
            cell['j'] = z3.IntVal(0)
            r = as_term(o.is_subgradient(v, x, tol))
            i, k = cellpos(c, N, D)
            j = cell['j']
            equate_sums(i)
            if gi is None:
                prove('accepted: every row within the tolerance of a subgradient', Implies(r, Not(far(i, j))))
            else:
                q = c.const('q', Int)
                assume(q >= 0, q < gi['m'].t)
                prove('accepted: every row of every group within the tolerance of a subgradient', Implies(r, Not(far(i, q))))
            prove('rejected: only when some row of a group is too far from every subgradient', Or(r, Not(forall(
                0, N.t, lambda b: Not(far(b, j)), lambda b: [U2(b, j)]))))
            prove('the weights are unchanged', same_array(x, x0))
            cover('tested')
        return drv

    def test_inv(L, t, g):
        far = cell['far']
        equate_sums()
        return [('groups tested so far', Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < cell['N'].t, j >= 0, j < t), Not(far(i, j))), lambda i, j: [cell['U2'](i, j)]))]

    def test_lemma(L, t, g):
        cell['dist'](t)
        cell['j'] = t
        return []
    for kind in ('all', 'groups'):
        us.append(Unit(E, 'L2SqrtPenalty.is_subgradient (%s)' % kind, d_group_test(kind), {'L2SqrtPenalty.is_subgradient:for#1': LoopSpec(inv=test_inv, lemma=test_lemma)}))
    # ---------------------------------------------------------------- sparse group lasso
    def d_sparse_new():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        l2 = symreal('l2')
        assume(l2.t > 0)
        groups = [[0, 2], [1]]
        start = [None, groups][c.choose(2)]
        o = P.SparseGroupLassoPenalty(lam, l2, start)

        def consistent(what, gs, pen1, pen2):
            a, b = o.l1_penalty, o.l2_sqrt_penalty
            prove(what + ': kind of the first term', z3.BoolVal(isinstance(a, P.L1Penalty) if gs is None else isinstance(a, P.L2SqrtPenalty)))
            prove(what + ': groups', z3.BoolVal((o.groups is None if gs is None else o.groups is gs and a.groups is gs)))
            prove(what + ': the second term treats whole rows', z3.BoolVal(isinstance(b, P.L2SqrtPenalty) and list(b.groups) == [slice(None)]))
            prove(what + ': penalties', And(R(a.penalty) == pen1, R(b.penalty) == pen2, R(o.penalty[0]) == pen1, R(o.penalty[1]) == pen2))
        consistent('new', start, lam.t, l2.t)
        other = [None, [[0], [1, 2]]][c.choose(2)]
        o.groups = other
        consistent('other groups', other, lam.t, l2.t)
        p = symreal('p')
        if raised(lambda: setattr(o, 'penalty', p), ValueError)[1] is not None:
            prove('only a positive penalty is accepted', p.t <= 0)
        else:
            consistent('other penalty', other, p.t, p.t)
            prove('a positive penalty', p.t > 0)
        cover('built')
    us.append(Unit(E, 'SparseGroupLassoPenalty: groups and penalties', d_sparse_new))

    def sparse(c, P, lam):
        l2 = symreal('l2')
        assume(l2.t > 0)
        o = P.SparseGroupLassoPenalty(lam, l2, [None, [[0], [1]]][c.choose(2)])
        return o, l2

    def d_sparse():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        o, l2 = sparse(c, P, lam)
        log = []
        o.l1_penalty, o.l2_sqrt_penalty = Part('first', log), Part('second', log)
        v = o.loss(x)
        prove('sum of the two losses', And(z3.BoolVal(sorted(e[0] for e in log) == ['first', 'second'] and all(e[1] == 'loss' for e in log)),
                                         R(v) == R(log[0][4]) + R(log[1][4]), *[same_array(e[2], x0) for e in log]))
        del log[:]
        g = same_shape('gradient', o.grad(x), N, D)
        i, k = cellpos(c, N, D)
        prove('sum of the two gradients', And(z3.BoolVal(sorted(e[0] for e in log) == ['first', 'second'] and all(e[1] == 'grad' for e in log)),
                                            g(i, k) == sum([to_real(e[4].reader()(i, k)) for e in log], z3.RealVal(0)), *[same_array(e[2], x0) for e in log]))
        del log[:]
        p = o.proximal(x, eta)
        ok = len(log) == 2 and [e[0] for e in log] == ['first', 'second'] and all(e[1] == 'prox' for e in log)
        prove('the proximal operator of the rows after that of the first term', z3.BoolVal(ok))
        prove('composition', And(same_array(log[0][2], x0), same_array(log[1][2], log[0][4]), same_array(p, log[1][4]), *[R(e[3][0]) == eta.t for e in log]))
        prove('the weights are unchanged', same_array(x, x0))
        cover('computed')
    us.append(Unit(E, 'SparseGroupLassoPenalty', d_sparse))

    def d_composition():
        """soft threshold of every weight followed by the shrinking of the row minimises the sum of both penalties (uses the contracts of both operators only)"""
        c, P, N, D, x, x0, rx, lam, eta = setup()
        l2 = symreal('l2')
        assume(l2.t > 0)
        n = D
        X, S, PR, z = (c.func(q, Int, Real) for q in ('X', 'S', 'P', 'z'))
        F = c.const('F', Real)
        A = total(lambda k: S(k) * S(k), n)
        a1, a2 = lam.t * eta.t, l2.t * eta.t
        assume(F == shrink(A, a2))                                   # contract of L2SqrtPenalty.proximal
        assume(forall(0, n.t, lambda k: PR(k) == S(k) * F, lambda k: [PR(k)]))
        assume(forall(0, n.t, lambda k: S(k) == thr(X(k), a1), lambda k: [S(k)]))        # contract of L1Penalty.proximal
        optimal(c, n, S, PR, A, l2.t, eta.t, F)
        zz = ctx().memo['optimal'][0]
        u, s, t = ctx().memo['optimal'][1:4]
        cost = lambda q: lambda k: 2 * a1 * absv(q(k)) + (X(k) - q(k)) * (X(k) - q(k))
        slack = lambda k: a1 * absv(zz(k)) - (X(k) - S(k)) * zz(k)
        dz, dp = lambda k: (S(k) - zz(k)) * (S(k) - zz(k)), lambda k: (S(k) - PR(k)) * (S(k) - PR(k))
        L1 = Lemma('soft threshold', 2, lambda a, q: Implies(q > 0, And(absv(a - thr(a, q)) <= q, (a - thr(a, q)) * thr(a, q) == q * absv(thr(a, q)))))
        L2 = Lemma('bounded slope', 3, lambda q, d, b: Implies(And(q > 0, absv(d) <= q), q * absv(b) - d * b >= 0))
        prove('thresholds are positive', And(a1 > 0, a2 > 0))

        def at_pos(k):
            prove('values', And(PR(k) == S(k) * F, S(k) == thr(X(k), a1)))
            L1.use(X(k), a1)
            derive('slope of the first term', And(absv(X(k) - S(k)) <= a1, (X(k) - S(k)) * S(k) == a1 * absv(S(k))), L1.at(X(k), a1), S(k) == thr(X(k), a1), a1 > 0, general=(a1,))

        def ident(k, goal):
            at_pos(k)
            derive('slope at the result', (X(k) - S(k)) * PR(k) == a1 * absv(PR(k)), (X(k) - S(k)) * S(k) == a1 * absv(S(k)), PR(k) == S(k) * F, F >= 0, a1 > 0,
                   general=(X(k), S(k), PR(k), a1))
            derive('identity', goal, (X(k) - S(k)) * PR(k) == a1 * absv(PR(k)), general=(X(k), S(k), PR(k), zz(k), absv(PR(k)), absv(zz(k))))
        cz, cp, sl, DZ, DP = sum_rule('costs', n, (1, cost(zz)), (-1, cost(PR)), (-2, slack), (-1, dz), (1, dp), how=ident)

        def pos(k):
            at_pos(k)
            L2.use(a1, X(k) - S(k), zz(k))
            prove('slack of a weight', slack(k) >= 0)
        every('the slack is not negative', 0, n.t, lambda k: slack(k) >= 0, pos)
        prove('total slack', sl >= 0)
        prove('shrinking is optimal', 2 * a2 * u + DP <= 2 * a2 * t + DZ)
        prove('the composition minimises the sum of both penalties and the squared distance', cp + 2 * a2 * u <= cz + 2 * a2 * t)
        cover('minimiser')
    us.append(Unit(E, 'SparseGroupLassoPenalty.proximal: minimiser', d_composition))

    def d_sparse_test():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        o, l2 = sparse(c, P, lam)
        log = []
        o.l1_penalty = Part('first', log)
        v, tol = mat('v', N, D), symreal('tol')
        assume(tol.t >= 0)
        rv = v.copy().reader()
        sq = _rows([dim_wrap(N.t)], lambda i: total(lambda k: rx(i, k) * rx(i, k), D)).reader()
        nrm = lambda i: funcs.sqrt(sq(i))
        r = as_term(o.is_subgradient(v, x, tol))
        i, k = cellpos(c, N, D)
        equate_sums(i)
        near = [e for e in log if e[1] == 'near']
        prove('the first term is tested once', z3.BoolVal(len(near) == 1))
        _, _, vv, (xx, tl), ans = near[0]
        q = c.const('q', Int)
        assume(q >= 0, q < dterm(xx.shape[0]))
        prove('same rows of both', And(dterm(vv.shape[0]) == dterm(xx.shape[0]), dterm(vv.shape[1]) == D.t, dterm(xx.shape[1]) == D.t, R(tl) == tol.t))
        res = lambda i, k: rv(i, k) - l2.t * If(nrm(i) > 0, rx(i, k) / nrm(i), z3.RealVal(0))
        sels = [(w[0], w[2]) for key, w in c.memo.items() if isinstance(key, tuple) and key[0] == 'sel']
        a, b = vv.reader(), xx.reader()
        assume(*[touch(s(q) == 0) for s, _ in sels])
        prove('only rows with a non-zero norm, less the gradient of the row norm', Or([And(s(q) >= 0, s(q) < N.t, nrm(s(q)) > 0, to_real(
            a(q, k)) == res(s(q), k), to_real(b(q, k)) == rx(s(q), k)) for s, _ in sels]))
        prove('all such rows', Implies(nrm(i) > 0, Or([And(rk(i) >= 0, rk(i) < dterm(xx.shape[0]), to_real(b(rk(i), k)) == rx(i, k)) for _, rk in sels])))
        prox = [e for e in log if e[1] == 'prox']
        if not prox:
            prove('without a look at the zero rows: rejected by the first term', And(Not(r), Not(as_term(ans))))
        else:
            prove('proximal operator asked once, unit step', And(z3.BoolVal(len(prox) == 1), R(prox[0][3][0]) == 1))
            zz, out = prox[0][2], prox[0][4]
            m, ro, a = dterm(zz.shape[0]), out.reader(), zz.reader()
            p = c.const('p', Int)
            assume(p >= 0, p < m, *[touch(s(p) == 0) for s, _ in sels])
            prove('only rows with norm zero', Or([And(s(p) >= 0, s(p) < N.t, Not(nrm(s(p)) > 0), to_real(a(p, k)) == rv(s(p), k)) for s, _ in sels]))
            prove('all rows with norm zero', Implies(Not(nrm(i) > 0), Or([And(rk(i) >= 0, rk(i) < m, to_real(a(rk(i), k)) == rv(i, k)) for _, rk in sels])))
            rows = _rows([dim_wrap(m)], lambda q: total(lambda k: to_real(ro(q, k)) * to_real(ro(q, k)), D)).reader()
            equate_sums(p)
            far = lambda q: funcs.sqrt(rows(q)) > l2.t + tol.t
            prove('accepted: what exceeds the first term lies in the ball of the second', Implies(r, And(as_term(ans), Not(far(p)))))
            prove('rejected: only when a row with norm zero lies outside', Or(r, Not(forall(0, m, lambda q: Not(far(q)), lambda q: [rows(q)]))))
        prove('the weights are unchanged', same_array(x, x0))
        cover('tested')
    us.append(Unit(E, 'SparseGroupLassoPenalty.is_subgradient', d_sparse_test))
    # ---------------------------------------------------------------- interaction penalty
    def d_interaction():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        o = P.InteractionPenalty(lam)
        v = R(o.loss(x))
        g = o.grad(x)
        i, k = cellpos(c, N, D)
        if not isinstance(g, Arr):
            prove('no interaction within a single subspace', And(N.t == 1, v == 0, R(g) == 0))
            return
        prove('several subspaces', N.t != 1)
        gr = same_shape('gradient', g, N, D)
        q = lambda i, k: rx(i, k) * rx(i, k)
        pair = _rows([dim_wrap(N.t)] * 2, lambda i, j: total(lambda k: q(i, k) * q(j, k), D)).reader()
        row = _rows([dim_wrap(N.t)], lambda i: total(lambda j: If(i == j, z3.RealVal(0), pair(i, j)), N)).reader()
        equate_sums()
        equate_sums()
        prove('half the penalty times the sum of the interactions of all pairs of subspaces', v == lam.t * total(row, N) / 2)
        col = _rows([dim_wrap(D.t)], lambda k: total(lambda i: q(i, k), N)).reader()
        equate_sums()
        prove('gradient formula', gr(i, k) == 2 * lam.t * rx(i, k) * (col(k) - q(i, k)))
        prove('the weights are unchanged', same_array(x, x0))
        cover('several subspaces')
    us.append(Unit(E, 'InteractionPenalty', d_interaction))

    def d_interaction_slope():
        """change of the loss (in the form proved by the previous unit) when one weight changes by h: gradient times h, plus a term in h squared"""
        c, P, N, D, x, x0, rx, lam, eta = setup()
        a, b = cellpos(c, N, D)
        h, d = c.const('h', Real), c.const('d', Real)
        w = rx(a, b)
        q = c.func('sq', Int, Int, Real)                             # squares of the weights
        assume(forall2(N.t, D.t, lambda i, k: q(i, k) == rx(i, k) * rx(i, k), lambda i, k: [q(i, k)]))
        zero = z3.RealVal(0)
        q2 = lambda i, k: q(i, k) + If(And(i == a, k == b), d, zero)
        assume(d == 2 * w * h + h * h)
        prove('the changed square', (w + h) * (w + h) == w * w + d)
        dims = [dim_wrap(N.t)] * 2
        M = lambda i, j: If(i == a, d * q(j, b), If(j == a, d * q(i, b), zero))

        def losses(q):
            pair = _rows(dims, lambda i, j: total(lambda k: q(i, k) * q(j, k), D)).reader()
            off = lambda i: lambda j: If(i == j, zero, pair(i, j))
            row = _rows(dims[:1], lambda i: total(off(i), N)).reader()
            return pair, off, row
        pair, off, row = losses(q)
        pair2, off2, row2 = losses(q2)
        others = lambda j: If(j == a, zero, d * q(j, b))
        rest = total(others, N)

        def pair_lemma(i):
            def how(j, goal):
                s1, s2, s3 = sum_rule('a pair', D, (1, lambda k: q2(i, k) * q2(j, k)), (-1, lambda k: q(i, k) * q(j, k)), (-1, lambda k: If(
                    And(i != j, k == b), M(i, j), If(i == j, q2(i, k) * q2(j, k) - q(i, k) * q(j, k), zero))))
                one = single_rule('a single feature', D, b, M(i, j))
                equal_sums('changed pair', s1, pair2(i, j))
                equal_sums('original pair', s2, pair(i, j))
                prove('the pair', Implies(i != j, And(s3 == one, s1 == pair2(i, j), s2 == pair(i, j))))
                prove('change of a pair', Implies(i != j, pair2(i, j) - pair(i, j) == M(i, j)))
            return how

        def row_lemma(i, goal):
            r2, r1, rm = sum_rule('a row', N, (1, off2(i)), (-1, off(i)), (-1, lambda j: If(i == j, zero, M(i, j))), how=pair_lemma(i))
            one = single_rule('a single pair', N, a, d * q(i, b))
            equal_sums('changed row', r2, row2(i))
            equal_sums('original row', r1, row(i))
            prove('row sums', And(r2 == row2(i), r1 == row(i), Implies(i == a, rm == rest), Implies(i != a, rm == one)))
        changed = lambda i: If(i == a, rest, d * q(i, b))
        t2, t1, ch = sum_rule('all rows', N, (1, row2), (-1, row), (-1, changed), how=row_lemma)
        single = single_rule('the changed row', N, a, rest)
        sum_rule('changes', N, (1, changed), (-1, others), (-1, lambda i: If(i == a, rest, zero)))
        prove('change of the sum', t2 - t1 == 2 * rest)
        col = total(lambda j: q(j, b), N)
        own = single_rule('the changed subspace', N, a, d * q(a, b))
        o1, o2, o3 = sum_rule('the other subspaces', N, (d, lambda j: q(j, b)), (-1, others), (-1, lambda j: If(j == a, d * q(a, b), zero)),
                              how=lambda j, goal: (derive('same subspace', Implies(j == a, goal)), derive('another subspace', Implies(j != a, goal))))
        prove('the other subspaces together', rest == d * (col - q(a, b)))
        derive('loss at the changed weight = loss + gradient times h + a term in h squared', lam.t * t2 / 2 == lam.t * t1 / 2 + 2 * lam.t * w * (col - q(a, b)) * h
               + lam.t * (col - q(a, b)) * h * h, t2 - t1 == 2 * rest, rest == d * (col - q(a, b)), d == 2 * w * h + h * h, general=(t1, t2, rest, col, q(a, b), w))
        cover('slope')
    us.append(Unit(E, 'InteractionPenalty: slope', d_interaction_slope))

    # ---------------------------------------------------------------- huber
    def huber(w, dl):
        return If(w > dl, dl * (w - dl / 2), If(w < -dl, -dl * (w + dl / 2), w * w / 2))

    def d_huber():
        c, P, N, D, x, x0, rx, lam, eta = setup()
        U = E.load(UT)
        dl = symreal('dl')
        assume(dl.t > 0)
        asked = []

        def contract(w, pen, delta):
            r = symreal('hub')
            asked.append((toarr(w).copy(), R(pen), R(delta), r))
            return r
        swap(U, 'compute_huber_penalty', contract)
        o = P.HuberPenalty(lam, dl)
        v = o.loss(x)
        prove('loss by the kernel: weights, penalty over delta, delta', And(z3.BoolVal(len(asked) == 1), same_array(asked[0][0], x0), asked[0][1] * dl.t == lam.t,
                                                                      asked[0][2] == dl.t, R(v) == asked[0][3].t))
        g = same_shape('gradient', o.grad(x), N, D)
        i, k = cellpos(c, N, D)
        G = c.const('G', Real)
        w, h = rx(i, k), c.const('h', Real)
        pen = asked[0][1]
        prove('gradient: clipped weight', g(i, k) == pen * If(w > dl.t, dl.t, If(w < -dl.t, -dl.t, w)))
        W = c.const('W', Real)
        lemma = Lemma('slope of the huber function', 3, lambda w, h, dl: Implies(dl > 0, And(
            huber(w + h, dl) - huber(w, dl) - If(w > dl, dl, If(w < -dl, -dl, w)) * h >= 0, huber(w + h, dl) - huber(w, dl) - If(w > dl, dl, If(w < -dl, -dl, w)) * h <= h * h / 2)))
        lemma.use(w, h, dl.t)
        prove('the gradient is the derivative: the rest is at most h squared over two', And(
            huber(w + h, dl.t) - huber(w, dl.t) - If(w > dl.t, dl.t, If(w < -dl.t, -dl.t, w)) * h >= 0,
            huber(w + h, dl.t) - huber(w, dl.t) - If(w > dl.t, dl.t, If(w < -dl.t, -dl.t, w)) * h <= h * h / 2))
        prove('the weights are unchanged', same_array(x, x0))
        cover('computed')
    us.append(Unit(E, 'HuberPenalty', d_huber))

    def d_huber_kernel():
        c = ctx()
        U = E.load(UT)
        N, D = size('N', 1), size('D', 1)
        x = mat('x', N, D)
        rx = x.copy().reader()
        pen, dl = symreal('pen'), symreal('dl')
        assume(dl.t > 0)
        S, H = c.func('S', Int, Int, Real), c.func('H', Int, Real)
        term = lambda i, k: huber(rx(i, k), dl.t)
        assume(Forall([Int], lambda i: S(i, z3.IntVal(0)) == 0, lambda i: [S(i, z3.IntVal(0))]), H(z3.IntVal(0)) == 0)

        def unfold_row(i):
            assume(Implies(i >= 0, H(z3.simplify(i + 1)) == H(i) + S(i, D.t)))

        def unfold(i, k):
            assume(Implies(k >= 0, S(i, z3.simplify(k + 1)) == S(i, k) + term(i, k)))
        cell.clear()
        cell.update(S=S, H=H, unfold=unfold, unfold_row=unfold_row, D=D)
        v = U.compute_huber_penalty(x, pen, dl)
        rows = _rows([dim_wrap(N.t)], lambda i: total(lambda k: term(i, k), D)).reader()

        def row(i):
            unfold_row(i)
            s, = telescope_rule('a row', D, lambda k: -S(i, k), (1, lambda k: term(i, k)), how=lambda k: unfold(i, k))
            equate_sums(i)
            prove('row sum', s == rows(i))
        s, = telescope_rule('all rows', N, lambda i: -H(i), (1, rows), how=row)
        prove('penalty times the sum of the huber values of all weights', R(v) == pen.t * s)
        cover('computed')

    def hub_outer(L, t, g):
        return [('so far', R(L['loss']) == cell['H'](t))]

    def hub_inner(L, t, g):
        return [('so far', R(L['loss']) == cell['H'](t_(L['i'])) + cell['S'](t_(L['i']), t))]

    def hub_row(L, t, g):
        cell['unfold_row'](t)
        return []

    def hub_lemma(L, t, g):
        cell['unfold'](t_(L['i']), t)
        return []
    num = {'loss': lambda c: SymNum(c.const('loss', Real))}
    us.append(Unit(E, 'compute_huber_penalty', d_huber_kernel, {'compute_huber_penalty:for#1': LoopSpec(inv=hub_outer, lemma=hub_row, types=num),
                                                               'compute_huber_penalty:for#2': LoopSpec(inv=hub_inner, lemma=hub_lemma, types=num)}))
    # ---------------------------------------------------------------- proximal optimizers
    def d_step(cls):
        def drv():
            c, P, N, D, x, x0, rx, lam, eta = setup(D=size('D', 2))
            O = E.load(OPT)
            log = []
            o = getattr(O, cls)(penalty_term=Part('pen', log))
            o.remove_bias_column = bias = bool(c.choose(2))
            g, step = mat('g', N, D), symreal('step')
            g0, rg = g.copy(), g.copy().reader()
            r = same_shape('next point', o._proximal_step(x, g, step), N, D)
            i, k = cellpos(c, N, D)
            W = D.t - 1 if bias else D.t
            prove('one proximal operator', z3.BoolVal([e[1] for e in log] == ['prox']))
            q, out = log[0][2], log[0][4]
            prove('of the weights without the bias column, with the step', And(dterm(q.shape[0]) == N.t, dterm(q.shape[1]) == W, R(log[0][3][0]) == step.t))
            prove('after a gradient step', Implies(k < W, to_real(q.reader()(i, k)) == rx(i, k) - step.t * rg(i, k)))
            prove('next weights: the proximal operator; next bias: the gradient step', r(i, k) == If(k < W, to_real(out.reader()(i, k)), rx(i, k) - step.t * rg(i, k)))
            prove('the arguments are unchanged', And(same_array(x, x0), same_array(g, g0)))
            cover('stepped')
            del log[:]
            res = lambda: None
            res.x, res.grad = x, g
            tol = symreal('tol')
            ok = as_term(o._gradient_converged(res, tol))
            b = funcs.sqrt(total(lambda i: rg(i, D.t - 1) * rg(i, D.t - 1), N)) if bias else z3.RealVal(0)
            near = [e for e in log if e[1] == 'near']
            if near:
                _, _, v, (xx, tl), ans = near[0]
                prove('opposite gradient tested at the weights', And(dterm(v.shape[0]) == N.t, dterm(v.shape[1]) == W, dterm(xx.shape[1]) == W, R(tl) == tol.t, Implies(
                    k < W, And(to_real(v.reader()(i, k)) == -rg(i, k), to_real(xx.reader()(i, k)) == rx(i, k)))))
                prove('converged: small bias gradient and a subgradient of the penalty', ok == And(b <= tol.t, as_term(ans)))
            else:
                prove('not converged: the bias gradient is large', And(Not(ok), b > tol.t))
            prove('the arguments are unchanged by the test', And(same_array(x, x0), same_array(g, g0)))
        return drv
    for cls in ('ProximalGradientDescent', 'FISTA'):
        us.append(Unit(E, cls + '._proximal_step/_gradient_converged', d_step(cls)))

    def d_base():
        P = E.load(PEN)
        p = symreal('p')
        cls = ['L1Penalty', 'L2Penalty', 'L2SqrtPenalty', 'InteractionPenalty'][ctx().choose(4)]
        o, err = raised(lambda: getattr(P, cls)(p), ValueError)
        if err is not None:
            prove('rejected only unless positive', p.t <= 0)
            return
        prove('positive', And(p.t > 0, R(o.penalty) == p.t))
        q = symreal('q')
        if raised(lambda: setattr(o, 'penalty', q), ValueError)[1] is not None:
            prove('rejected only unless positive', And(q.t <= 0, R(o.penalty) == p.t))
        else:
            prove('positive', And(q.t > 0, R(o.penalty) == q.t))
        cover('set')
    us.append(Unit(E, 'PenaltyTerm.penalty', d_base))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
