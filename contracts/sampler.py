"""Contracts of the hit-and-run sampler (C14) and of the cone, ellipsoid and rounding pieces it uses (C28)."""
from pyvc.reduce import equate_sums, head_rule, prefix_rule, reduce1, sum_rule, telescope_rule
from pyvc import funcs

from .common import *
from .explore import Obj, prop, raised
from .kernels import total
from .vspace import rows_of

FUNCTIONS = {
    'C28': ['BoundedPolyhedralCone.intersection', 'BoundedPolyhedralCone.__get_polytope_extremes', 'BoundedPolyhedralCone.__get_ball_extremes',
            'BoundedPolyhedralCone.get_separating_oracle', 'BoundedPolyhedralCone.is_inside_polytope', 'Ellipsoid.__init__', 'Ellipsoid.cut',
            'Ellipsoid._update_diagonal', 'Ellipsoid._update_cholesky_factor', 'Ellipsoid.compute_alpha_single', 'OptimizedStrategy.__call__',
            'OptimizedStrategy._get_alpha_cut', 'OptimizedStrategy._get_z_cut'],
    'C14': ['HitAndRunSampler.sample', 'HitAndRunSampler.clear', 'HitAndRunSampler.__get_starting_point', 'HitAndRunSampler.__truncate_samples',
            'HitAndRunSampler.__compute_new_ellipsoid', 'HitAndRunChain.__init__', 'HitAndRunChain.reset', 'HitAndRunChain.advance',
            'HitAndRunChain._advance_single', 'HitAndRunChain._sample_direction', 'single_chain_sampler', 'multiple_chain_sampler',
            'BoundedPolyhedralCone.get_interior_point', 'BoundedPolyhedralCone.is_inside_polytope'],
}
SUMS = 'finite sums: extensionality, linearity, telescoping, prefixes and splitting off the first term (inductions on the length, used as proof rules)'
ASSUMPTIONS = {
    'C28': [SUMS, 'sqrt by its defining equation', 'the direction of a chord is not zero; the half-space of a cut has a normal (its quadratic form is positive)',
            'the diagonal of an ellipsoid is positive before a cut (established by its constructor and by every cut)',
            'best cut on the sphere: the optimiser returns a point of the unit sphere', 'scipy eigh (extremes of an ellipsoid) is not under contract'],
    'C14': [SUMS, 'numpy.random.uniform(a, b) lies between a and b; directions are not zero (probability one)',
            'scipy linprog: a successful result satisfies the inequality constraints given',
            'samples cached from the previous exploration have norm at most one (established by this property)'],
}
POL = 'aideme.active_learning.version_space.hit_and_run.polyhedral_cone'
HR = 'aideme.active_learning.version_space.hit_and_run.hit_and_run'
ELL = 'aideme.active_learning.version_space.hit_and_run.ellipsoid'
R0, R1 = z3.RealVal(0), z3.RealVal(1)


def cone(E, lo=1):
    """a cone with arbitrary constraints; row(i, x): value of constraint i at the vector x (a reader)"""
    M = E.load(POL)
    n, d = size('n', lo), size('d', 1)
    A = mat('A', n, d)
    o = M.BoundedPolyhedralCone(A.copy())
    ra = A.reader()
    row = lambda i, x: total(lambda j: to_real(ra(i, j)) * to_real(x(j)), d)
    sq = lambda x: total(lambda j: to_real(x(j)) * to_real(x(j)), d)
    return M, o, n, d, A, row, sq


def all_rows(n, row, x, rel):
    """rel(value of constraint i at x) for every i"""
    f = rows_of(n, lambda i: row(i, x))
    return forall(0, n.t, lambda i: rel(f(i)), lambda i: [f(i)])


def method(o, name):
    """a private method of the class under contract (absent: out of reach)"""
    k = '_%s__%s' % (type(o).__name__, name)
    if not hasattr(type(o), k):
        ctx().unsupported('%s has no helper %s' % (type(o).__name__, name))
    return getattr(o, k)


def restub(o, name, f):
    """a private helper with a contract of its own replaced by that contract"""
    method(o, name)
    object.__setattr__(o, '_%s__%s' % (type(o).__name__, name), f)


def restub1(o, name, f):
    """a helper with a contract of its own replaced by that contract"""
    if not hasattr(type(o), name):
        ctx().unsupported('%s has no helper %s' % (type(o).__name__, name))
    object.__setattr__(o, name, f)


def unbounded(v, sign):
    return isinstance(v, float) and v == sign * float('inf')


def units_C28(E):
    us = []

    def d_polytope():
        M, o, n, d, A, row, sq = cone(E, 0)
        x, v = vec('x', d), vec('v', d)
        rx, rv = x.copy().reader(), v.copy().reader()
        fx, fv = rows_of(n, lambda i: row(i, rx)), rows_of(n, lambda i: row(i, rv))
        r = method(o, 'get_polytope_extremes')(x, v)
        equate_sums()
        L1 = Lemma('the quotient solves the equation', 2, lambda x, d: Implies(d != 0, x + (-x / d) * d == 0))
        L2 = Lemma('beyond the quotient', 3, lambda x, d, t: And(Implies(And(d < 0, t >= -x / d), x + t * d <= 0), Implies(And(d > 0, t <= -x / d), x + t * d <= 0)))
        for k, (t, sg, nm) in enumerate(((r[0], -1, 'lower'), (r[1], 1, 'upper'))):
            if unbounded(t, sg):
                prove('%s: unbounded only when no constraint decreases that way' % nm, forall(0, n.t, lambda i: fv(i) * sg <= 0, lambda i: [fv(i)]))
                continue
            t = to_real(t_(t))
            L2.over(0, n.t, lambda i: (fx(i), fv(i), t), lambda i: [fv(i)])
            L1.over(0, n.t, lambda i: (fx(i), fv(i)), lambda i: [fv(i)])
            prove('%s: no constraint of that direction is violated' % nm, forall(0, n.t, lambda i: Implies(fv(i) * sg > 0, fx(i) + t * fv(i) <= 0), lambda i: [fv(i)]))
            prove('%s: some constraint of that direction is tight' % nm, Exists([Int], lambda i: And(i >= 0, i < n.t, fv(i) * sg > 0, fx(i) + t * fv(i) == 0), lambda i: [fv(i)]))
        prove('the constraints are unchanged', same_array(o.A, A))
    us.append(Unit(E, 'BoundedPolyhedralCone.__get_polytope_extremes', d_polytope))

    def d_ball():
        M, o, n, d, A, row, sq = cone(E, 0)
        x, v = vec('x', d), vec('v', d)
        rx, rv = x.copy().reader(), v.copy().reader()
        a, b, q = sq(rv), total(lambda j: to_real(rx(j)) * to_real(rv(j)), d), sq(rx)
        assume(a > 0)
        r, err = raised(lambda: method(o, 'get_ball_extremes')(x, v), RuntimeError)
        equate_sums()
        delta = b * b - a * (q - 1)
        if err is not None:
            prove('rejected only when the line misses the open ball', delta <= 0)
            return
        prove('the line meets the open ball', delta > 0)
        s = funcs.sqrt(delta)
        lo, hi = to_real(t_(r[0])), to_real(t_(r[1]))
        prove('the first root', lo == (-b - s) / a)
        prove('the second root', hi == (-b + s) / a)
        given = [a > 0, s >= 0, s * s == delta, delta > 0, lo == (-b - s) / a, hi == (-b + s) / a]
        derive('the first comes before the second', lo < hi, *given)
        derive('sum of the roots', a * (lo + hi) == -2 * b, *given)
        derive('product of the roots', a * lo * hi == q - 1, *given)
    us.append(Unit(E, 'BoundedPolyhedralCone.__get_ball_extremes', d_ball))

    def d_intersection(case):
        def drv():
            M, o, n, d, A, row, sq = cone(E, 0)
            c = ctx()
            x, v = vec('x', d), vec('v', d)
            x0, v0 = x.copy(), v.copy()
            rx, rv, ra = x0.reader(), v0.reader(), A.reader()
            strict = case == 'interior'
            a, b, q = (c.const(k, Real) for k in 'abq')       # squared norm of the direction, product with the point, squared norm of it
            fx, fv = c.func('fx', Int, Real), c.func('fv', Int, Real)
            assume(a > 0)
            assume(q < 1 if strict else q <= 1)
            assume(forall(0, n.t, lambda i: fx(i) < 0 if strict else fx(i) <= 0, lambda i: [fx(i)]))
            pos = lambda i: And(i >= 0, i < n.t)
            ext = {}

            def polytope_extremes(p, w):
                prove('asked for the point and the direction given', And(same_array(p, x0), same_array(w, v0)))
                out = []
                for sg, nm in ((-1, 'lower'), (1, 'upper')):
                    if c.choose(2):
                        assume(forall(0, n.t, lambda i: fv(i) * sg <= 0, lambda i: [fv(i)]))
                        out.append(sg * float('inf'))
                        continue
                    t, w = c.const(nm, Real), c.const('tight', Int)
                    assume(forall(0, n.t, lambda i: Implies(fv(i) * sg > 0, fx(i) + t * fv(i) <= 0), lambda i: [fv(i)]))
                    assume(pos(w), fv(w) * sg > 0, fx(w) + t * fv(w) == 0, fx(w) <= 0)
                    ext[nm] = (t, w)
                    out.append(wrap(t))
                return tuple(out)

            def ball_extremes(p, w):
                prove('asked for the point and the direction given', And(same_array(p, x0), same_array(w, v0)))
                if not c.branch(b * b - a * (q - 1) > 0):
                    raise RuntimeError('Center outside unit ball.')
                lo, hi = c.const('root', Real), c.const('root', Real)
                assume(lo < hi, a * (lo + hi) == -2 * b, a * lo * hi == q - 1)
                ext['ball'] = (lo, hi)
                return wrap(lo), wrap(hi)
            restub(o, 'get_polytope_extremes', polytope_extremes)
            restub(o, 'get_ball_extremes', ball_extremes)
            Lemma('a line through the interior meets the ball', 3, lambda a, b, q: Implies(And(a > 0, q < 1), b * b - a * (q - 1) > 0)).use(a, b, q)
            SG = Lemma('sign of the tight parameter', 3, lambda x, d, t: And(*[Implies(And(x + t * d == 0, p, e), r) for p, e, r in (
                (x < 0, d < 0, t < 0), (x < 0, d > 0, t > 0), (x <= 0, d < 0, t <= 0), (x <= 0, d > 0, t >= 0))]))
            RT = Lemma('roots on both sides', 5, lambda a, b, q, l, h: Implies(And(a > 0, l < h, a * (l + h) == -2 * b, a * l * h == q - 1), And(
                Implies(q < 1, And(l < 0, h > 0)), Implies(q <= 1, And(l <= 0, h >= 0)))))

            def facts():
                for nm in ('lower', 'upper'):
                    if nm in ext:
                        t, w = ext[nm]
                        SG.use(fx(w), fv(w), t)
                if 'ball' in ext:
                    RT.use(a, b, q, *ext['ball'])
            r, err = raised(lambda: o.intersection(x, v), RuntimeError)
            facts()
            if err is not None:
                if strict:
                    prove('a line through an interior point always meets the body', z3.BoolVal(False))
                return
            t1, t2 = to_real(t_(r[0])), to_real(t_(r[1]))
            prove('a proper segment', t1 < t2)
            prove('containing the point', And(t1 < 0, t2 > 0) if strict else And(t1 <= 0, t2 >= 0))
            lo, hi = ext['ball']
            prove('within the ball', And(t1 >= lo, t2 <= hi))
            if 'lower' in ext:
                prove('not below the lower bound', t1 >= ext['lower'][0])
            if 'upper' in ext:
                prove('not above the upper bound', t2 <= ext['upper'][0])
            if case == 'inside':
                t, i = c.const('t', Real), c.const('i', Int)
                assume(t >= t1, t <= t2, pos(i), touch(fx(i) == 0), touch(fv(i) == 0))
                up, dn = ext.get('upper', (R0,))[0], ext.get('lower', (R0,))[0]
                hyp = [fx(i) <= 0, Implies(fv(i) > 0, And(fx(i) + up * fv(i) <= 0, t <= up)) if 'upper' in ext else fv(i) <= 0,
                       Implies(fv(i) < 0, And(fx(i) + dn * fv(i) <= 0, t >= dn)) if 'lower' in ext else fv(i) >= 0]
                derive('no constraint is violated on the segment', fx(i) + t * fv(i) <= 0, *hyp)
                derive('nor the unit ball', q + 2 * t * b + t * t * a <= 1, a > 0, lo <= t, t <= hi, a * (lo + hi) == -2 * b, a * lo * hi == q - 1)
                # the two facts above in terms of the vectors
                S = lambda f: total(f, d)
                y = lambda j: to_real(rx(j)) + t * to_real(rv(j))
                fyi, fxi, fvi = row(i, y), row(i, rx), row(i, rv)
                sum_rule('a constraint is linear along the line', d, (1, lambda j: to_real(ra(i, j)) * y(j)), (-1, lambda j: to_real(ra(i, j)) * to_real(rx(j))),
                         (-t, lambda j: to_real(ra(i, j)) * to_real(rv(j))))
                sy, sx, sv, sxv = sq(y), sq(rx), sq(rv), S(lambda j: to_real(rx(j)) * to_real(rv(j)))
                sum_rule('the squared norm along the line', d, (1, lambda j: y(j) * y(j)), (-1, lambda j: to_real(rx(j)) * to_real(rx(j))),
                         (-2 * t, lambda j: to_real(rx(j)) * to_real(rv(j))), (-t * t, lambda j: to_real(rv(j)) * to_real(rv(j))))
                prove('value of a constraint along the line', fyi == fxi + t * fvi)
                prove('squared norm along the line', sy == sx + 2 * t * sxv + t * t * sv)
            if case == 'ends':
                for t, nm in ((t1, 'first'), (t2, 'second')):
                    L = Lemma('a root lies on the sphere', 5, lambda a, b, q, l, h: Implies(And(a * (l + h) == -2 * b, a * l * h == q - 1), And(
                        q + 2 * l * b + l * l * a == 1, q + 2 * h * b + h * h * a == 1)))
                    L.use(a, b, q, lo, hi)
                    side, bl = ('lower', lo) if nm == 'first' else ('upper', hi)
                    alts = [t == bl]
                    if side in ext:
                        alts.append(t == ext[side][0])
                    prove('the %s end lies on the boundary of the ball or of a constraint' % nm, Or(*alts))
            prove('the constraints and the arguments are unchanged', And(same_array(o.A, A), same_array(x, x0), same_array(v, v0)))
        return drv
    for case in ('interior', 'inside', 'ends'):
        us.append(Unit(E, 'BoundedPolyhedralCone.intersection[%s]' % case, d_intersection(case)))

    cell = {}

    def or_inv(L, t, g):
        n, f = cell['n'], cell['f']
        equate_sums(z3.simplify(t - 1))
        return [('no constraint seen so far is violated', forall(0, t, lambda i: f(i) < 0, lambda i: [f(i)]))]

    def d_oracle():
        M, o, n, d, A, row, sq = cone(E, 0)
        c = ctx()
        x = vec('x', d)
        x0 = x.copy()
        rx, ra = x0.reader(), A.reader()
        f = rows_of(n, lambda i: row(i, rx))
        cell.update(n=n, f=f)
        q = sq(rx)
        r = o.get_separating_oracle(x)
        if r is None:
            prove('none only for a point of the open body', And(q < 1, forall(0, n.t, lambda i: f(i) < 0, lambda i: [f(i)])))
            return
        b, g = to_real(t_(r[0])), toarr(r[1])
        rg = g.reader()
        prove('a half-space of the same dimension', dterm(g.shape[0]) == d.t)
        gx = total(lambda j: to_real(rg(j)) * to_real(rx(j)), d)
        if c.branch(q >= 1):
            nrm = funcs.sqrt(q)
            prove('outside the ball: bound one', b == 1)
            prove('outside the ball: the direction of the point', forall(0, d.t, lambda j: to_real(rg(j)) * nrm == to_real(rx(j))))
            sum_rule('value at the point', d, (nrm, lambda j: to_real(rg(j)) * to_real(rx(j))), (-1, lambda j: to_real(rx(j)) * to_real(rx(j))))
            sum_rule('squared norm of the direction', d, (q, lambda j: to_real(rg(j)) * to_real(rg(j))), (-1, lambda j: to_real(rx(j)) * to_real(rx(j))))
            prove('outside the ball: a unit direction', sq(rg) == 1)
        else:
            prove('violated constraint: bound zero', b == 0)
            prove('it is one of the constraints', Exists([Int], lambda i: And(i >= 0, i < n.t, forall(0, d.t, lambda j: rg(j) == ra(i, j))), lambda i: [f(i)]))
        prove('the point does not lie in the open half-space', gx >= b)
    us.append(Unit(E, 'BoundedPolyhedralCone.get_separating_oracle', d_oracle, {'BoundedPolyhedralCone.get_separating_oracle:for#1': LoopSpec(inv=or_inv)}))

    def d_inside():
        M, o, n, d, A, row, sq = cone(E)
        x = vec('x', d)
        rx = x.copy().reader()
        f = rows_of(n, lambda i: row(i, rx))
        r = o.is_inside_polytope(x)
        equate_sums()
        prove('inside exactly when every constraint holds strictly', t_(r) == forall(0, n.t, lambda i: f(i) < 0, lambda i: [f(i)]))
        prove('the dimension is that of the constraints', t_(o.dim) == d.t)
    us.append(Unit(E, 'BoundedPolyhedralCone.is_inside_polytope', d_inside))
    us += ellipsoid_units(E)
    return us


def ellipsoid(E, lo=1):
    M = E.load(ELL)
    n = size('dim', lo)
    o = M.Ellipsoid(n)
    D, L, z = vec('D', n), mat('L', n, n), vec('center', n)
    o.D, o.L, o.center = D.copy(), L.copy(), z.copy()
    rD = D.reader()
    assume(forall(0, n.t, lambda k: rD(k) > 0, lambda k: [rD(k)]))
    return M, o, n, D, L, z


def the_cumsum():
    """the running sums the code forms (another way of computing them is out of reach)"""
    ss = ctx().memo.get('cumsums', [])
    if len(ss) != 1:
        ctx().unsupported('the running sums are not formed by one cumsum')
    return ss[0]


def ellipsoid_units(E):
    us = []

    def d_alpha():
        M, o, n, D, L, z = ellipsoid(E)
        c = ctx()
        m = size('m', 1)
        G, g, b = mat('G', m, n), vec('g', n), symreal('bias')
        rD, rL, rz, rG, rg = D.reader(), L.reader(), z.reader(), G.copy().reader(), g.copy().reader()

        def depth(r, bias):
            ah = rows_of(n, lambda k: total(lambda j: to_real(rL(j, k)) * r(j), n))
            return total(lambda j: r(j) * to_real(rz(j)), n), total(lambda k: ah(k) * ah(k) * rD(k), n)
        a1 = to_real(t_(o.compute_alpha_single(b, g)))
        v, q = depth(lambda j: to_real(rg(j)), b.t)
        equate_sums()
        prove('relative position of one half-space', a1 == (v - b.t) / funcs.sqrt(q))
        prove('nothing changes', And(same_array(o.D, D), same_array(o.L, L), same_array(o.center, z)))
    us.append(Unit(E, 'Ellipsoid.compute_alpha_single', d_alpha))

    def d_new():
        M = E.load(ELL)
        n = size('dim', 1)
        o = M.Ellipsoid(n, compute_scale_matrix=True)
        rD, rL, rP, rz = o.D.reader(), o.L.reader(), o.scale.reader(), o.center.reader()
        prove('the unit ball at the origin', And(forall(0, n.t, lambda k: And(rD(k) == 1, rz(k) == 0)), forall2(n.t, n.t, lambda i, j: And(
            rL(i, j) == If(i == j, R1, R0), rP(i, j) == If(i == j, R1, R0)))))
        prove('of the dimension asked for', And(t_(o.dim) == n.t, *[dterm(d) == n.t for d in o.D.shape + o.L.shape + o.scale.shape + o.center.shape]))
        prove('no matrix unless asked for', z3.BoolVal(M.Ellipsoid(n).scale is None))
    us.append(Unit(E, 'Ellipsoid.__init__', d_new))

    def d_strategy():
        M = E.load('aideme.active_learning.version_space.hit_and_run.rounding')
        c = ctx()
        P, body, n, d, A, row, sq = cone(E, 1)
        ra = A.reader()
        z = vec('center', d)
        rz = z.copy().reader()
        best, log = vec('best', d), []
        zc, sc = bool(c.choose(2)), bool(c.choose(2))
        o = M.OptimizedStrategy(z_cut=zc, sphere_cuts=sc, sphere_cuts_optimizer=Obj('optimizer', []))
        gam = symreal('gamma')
        restub1(o, '_get_best_cut_on_sphere', lambda elp, threshold: (gam, (1, best)))
        elp = Obj('elp', log, dim=prop(lambda: d), center=prop(lambda: z), compute_alpha=lambda G: vec('alpha', toarr(G).shape[0]),
                  compute_alpha_single=lambda b, g: symreal('alpha'), cut=lambda b, g: SymBool(c.const('cut', Bool)))
        r = o(elp, body)
        cuts = [(a, k) for nm, a, k in log if nm == 'elp.cut']
        prove('one cut per round, none when the rounding stops', z3.BoolVal(len(cuts) <= 1))
        prove('goes on exactly when a cut was made', t_(r) == z3.BoolVal(len(cuts) == 1))
        for (b, g), _ in cuts:
            rg, bt = toarr(g).reader(), to_real(t_(b))
            if toarr(g).buf is best.buf:
                prove('a cut tangent to the unit ball', And(bt == 1, z3.BoolVal(sc)))
                continue
            if toarr(g).buf is z.buf:
                prove('a cut through the centre of the ellipsoid, which contains the unit ball', And(bt == funcs.sqrt(sq(rz)), z3.BoolVal(zc)))
                continue
            if toarr(g).buf is not body.A.buf or toarr(g).dims[0][0] != 'fix':
                c.unsupported('a cut along something else than a row of the constraints')
            k = toarr(g).dims[0][1]
            prove('a cut along a constraint', And(bt == 0, k >= 0, k < n.t, forall(0, d.t, lambda j: rg(j) == ra(k, j))))
    us.append(Unit(E, 'OptimizedStrategy.__call__', d_strategy))

    def d_diagonal():
        M, o, n, D, L, z = ellipsoid(E)
        c = ctx()
        p = vec('p', n)
        rD, rp = D.reader(), p.copy().reader()
        sigma, delta = symreal('sigma'), symreal('delta')
        s_, d_ = sigma.t, delta.t
        quad = lambda k: to_real(rp(k)) * (to_real(rp(k)) / rD(k))
        S = total(quad, n)
        assume(s_ >= 0, s_ * S < 1, d_ > 0)
        Q = Lemma('a weighted square', 3, lambda s, p, d: And(Implies(And(s >= 0, d > 0), s * (p * p) / d >= 0), Implies(d > 0, s * (p * (p / d)) == s * (p * p) / d)))
        Q.over(0, n.t, lambda k: (s_, rp(k), rD(k)), lambda k: [rp(k)])
        beta = o._update_diagonal(p, sigma, delta)
        equate_sums()
        cs = the_cumsum()
        T = lambda k: cs(z3.simplify(n.t - k))
        t_last = 1 - s_ * S
        prove('the last factor', T(n.t) == t_last)
        rng = lambda k: And(k >= 0, k < n.t)
        prove('each factor adds its weighted square', forall(0, n.t, lambda k: T(k) == T(k + 1) + s_ * (rp(k) * rp(k)) / rD(k), lambda k: [rp(k)]))
        telescope_rule('the factors add up', n, T, (s_, quad), how=lambda j: touch(rp(j) == 0))
        prove('the first factor is one', T(z3.IntVal(0)) == 1)
        induct('every factor is positive', 0, n.t, lambda m: cs(m) > 0, lambda m: [cs(m)])
        prove('every factor is positive', forall(0, n.t + 1, lambda k: T(k) > 0))
        rN, rb = o.D.reader(), toarr(beta).reader()
        k = c.const('k', Int)
        assume(rng(k))
        prove('same length', And(dterm(o.D.shape[0]) == n.t, dterm(toarr(beta).shape[0]) == n.t))
        a, b = T(k), T(z3.simplify(k + 1))
        prove('the factors at this position', And(a > 0, b > 0, rD(k) > 0))
        prove('the new diagonal entry, as computed', to_real(rN(k)) == rD(k) * b / a * d_)
        prove('the coefficient, as computed', to_real(rb(k)) == -s_ * rp(k) / (rD(k) * b))
        pos = [a > 0, b > 0, rD(k) > 0, d_ > 0]
        derive('the new diagonal entry', to_real(rN(k)) * a == rD(k) * b * d_, to_real(rN(k)) == rD(k) * b / a * d_, *pos)
        derive('it is positive', to_real(rN(k)) > 0, to_real(rN(k)) == rD(k) * b / a * d_, *pos)
        derive('the coefficient of the column', to_real(rb(k)) * rD(k) * b == -s_ * rp(k), to_real(rb(k)) == -s_ * rp(k) / (rD(k) * b), *pos)
        prove('the rest is unchanged', And(same_array(o.L, L), same_array(o.center, z)))
    us.append(Unit(E, 'Ellipsoid._update_diagonal', d_diagonal))

    def d_cholesky():
        M, o, n, D, L, z = ellipsoid(E)
        c = ctx()
        p, beta = vec('p', n), vec('beta', n)
        rp, rb, rL = p.copy().reader(), beta.copy().reader(), L.reader()
        o._update_cholesky_factor(p, beta)
        cs = the_cumsum()
        w = lambda i, k: z3.If(k >= n.t, R0, cs(i, z3.simplify(n.t - 1 - k)))
        rN = o.L.reader()
        i, k = c.const('i', Int), c.const('k', Int)
        assume(i >= 0, i < n.t, k >= 0, k < n.t)
        prove('suffix sums of the row', w(i, k) == w(i, k + 1) + to_real(rL(i, k)) * to_real(rp(k)))
        prove('the new factor', to_real(rN(i, k)) == to_real(rL(i, k)) + w(i, k + 1) * to_real(rb(k)))
        prove('the rest is unchanged', And(same_array(o.D, D), same_array(o.center, z), same_array(p, Arr.make((n,), 'real', rp))))
    us.append(Unit(E, 'Ellipsoid._update_cholesky_factor', d_cholesky))

    def d_cut():
        M, o, n, D, L, z = ellipsoid(E, 2)
        c = ctx()
        g, bias = vec('g', n), symreal('bias')
        rD, rL, rz, rg = D.reader(), L.reader(), z.reader(), g.copy().reader()
        scale = mat('P', n, n)
        o.scale = scale.copy()
        rP = scale.reader()
        st = {}

        def update_diagonal(p, sigma, delta):
            rp = p.copy().reader()
            s_, d_ = to_real(t_(sigma)), to_real(t_(delta))
            equate_sums()
            quad = lambda k: to_real(rp(k)) * (to_real(rp(k)) / rD(k))
            st.update(rp=rp, s=s_, d=d_, quad=quad)
            T = c.func('T', Int, Real)
            nD, beta = vec('newD', n), vec('beta', n)
            st.update(T=T, nD=nD.reader(), beta=beta.reader(), S=total(quad, n))
            o.D = nD
            return beta

        def update_factor(p, beta):
            prove('the factor is updated with the same vector', And(same_array(p, Arr.make((n,), 'real', st['rp'])), same_array(beta, Arr.make((n,), 'real', st['beta']))))
            w, nL = c.func('w', Int, Int, Real), mat('newL', n, n)
            st.update(w=w, nL=nL.reader())
            o.L = nL
        restub1(o, '_update_diagonal', update_diagonal)
        restub1(o, '_update_cholesky_factor', update_factor)
        r, err = raised(lambda: o.cut(bias, g), RuntimeError)
        ah = rows_of(n, lambda k: total(lambda j: to_real(rL(j, k)) * to_real(rg(j)), n))
        gam2 = total(lambda k: ah(k) * ah(k) * rD(k), n)
        gc = total(lambda j: to_real(rg(j)) * to_real(rz(j)), n)
        equate_sums()
        gam = funcs.sqrt(gam2)
        N = z3.ToReal(n.t)
        alpha = (gc - bias.t) / gam
        if err is not None:
            prove('rejected only when the ellipsoid lies outside the half-space', alpha >= 1)
            return
        if not c.branch(t_(r)):
            prove('a shallow cut changes nothing', And(alpha <= -1 / N, same_array(o.D, D), same_array(o.L, L), same_array(o.center, z), same_array(o.scale, scale)))
            return
        prove('a deep cut', And(alpha > -1 / N, alpha < 1))
        assume(gam2 > 0)                                       # the half-space has a normal: L is regular and g is not zero
        prove('both parts of the factorisation are updated', z3.BoolVal('T' in st and 'w' in st))
        s_, d_, T, w, rp = st['s'], st['d'], st['T'], st['w'], st['rp']
        nD, nL, nb, quad = st['nD'], st['nL'], st['beta'], st['quad']
        tau = (1 + N * alpha) / (N + 1)
        given = [N >= 2, alpha > -1 / N, alpha < 1]
        prove('the shrinking coefficient', s_ == 2 * tau / (alpha + 1))
        prove('the scaling coefficient', d_ == (1 - alpha * alpha) * ((N * N) / (N * N - 1)))
        isolated = lambda name, goal, *hyps: derive(name, goal, *hyps, general=(alpha, N))    # as plain variables
        isolated('the shrinking coefficient is a proper fraction', And(s_ > 0, s_ < 1), s_ == 2 * tau / (alpha + 1), *given)
        isolated('the scaling coefficient is positive', d_ > 0, d_ == (1 - alpha * alpha) * ((N * N) / (N * N - 1)), *given)
        # contract of _update_diagonal: its precondition, then what it ensures
        W = Lemma('weight of a scaled coordinate', 4, lambda D, a, g, q: Implies(And(D > 0, g > 0, g * g == q), q * ((D * a / g) * ((D * a / g) / D)) == a * a * D))
        W.over(0, n.t, lambda k: (rD(k), ah(k), gam, gam2), lambda k: [rD(k)])
        prove('the norm is positive', And(gam > 0, gam * gam == gam2))
        prove('the step vector', forall(0, n.t, lambda k: to_real(rp(k)) == rD(k) * ah(k) / gam, lambda k: [rD(k)]))
        sum_rule('the step vector lies on the ellipsoid', n, (gam2, quad), (-1, lambda k: ah(k) * ah(k) * rD(k)))
        S = st['S']
        derive('its weighted norm is one', S == 1, gam2 > 0, gam2 * S + -1 * gam2 == 0)
        derive('the update is admissible', s_ * S < 1, S == 1, s_ > 0, s_ < 1)
        prove('the precondition of the update', And(s_ >= 0, s_ * S < 1, d_ > 0))
        assume(T(z3.IntVal(0)) == 1, forall(0, n.t + 1, lambda k: T(k) > 0, lambda k: [T(k)]))
        P = lambda k: to_real(rp(k))
        R = lambda f: (lambda *ix: to_real(f(*ix)))
        nD, nL, nb, L_ = R(nD), R(nL), R(nb), R(rL)
        assume(forall(0, n.t, lambda k: And(T(k) == T(k + 1) + s_ * (P(k) * P(k)) / rD(k), nD(k) * T(k) == rD(k) * T(k + 1) * d_, nD(k) > 0,
                                            nb(k) * rD(k) * T(k + 1) == -s_ * P(k)), lambda k: [T(k)]))
        # contract of _update_cholesky_factor
        assume(Forall([Int, Int], lambda i, k: Implies(And(i >= 0, i < n.t, k >= 0, k < n.t), And(
            w(i, k) == w(i, k + 1) + L_(i, k) * P(k), nL(i, k) == L_(i, k) + w(i, k + 1) * nb(k))), lambda i, k: [w(i, k)]),
            Forall([Int], lambda i: w(i, n.t) == 0, lambda i: [w(i, n.t)]))
        i, j = c.const('i', Int), c.const('j', Int)
        assume(i >= 0, i < n.t, j >= 0, j < n.t)
        Pg = {}
        for r_ in (i, j):
            Pg[r_.get_id()] = telescope_rule('the suffix sums add up to the image of the step vector', n, lambda k, r_=r_: w(r_, k),
                                             (1, lambda k, r_=r_: L_(r_, k) * P(k)), how=lambda k, r_=r_: assume(touch(w(r_, k) == 0)))[0]
        Pi, Pj = Pg[i.get_id()], Pg[j.get_id()]
        prove('image of the step vector', And(Pi == w(i, z3.IntVal(0)), Pj == w(j, z3.IntVal(0))))
        equate_sums(i, j)
        rc, rs = o.center.reader(), o.scale.reader()
        prove('the centre moves along the image of the step vector', to_real(rc(i)) == to_real(rz(i)) - tau * Pi)
        X = lambda k: rD(k) * L_(i, k) * L_(j, k)
        Y = lambda k: nD(k) * nL(i, k) * nL(j, k)
        F = lambda k: -d_ * s_ * (w(i, k) * w(j, k) / T(k))

        def how(k):
            k1 = z3.simplify(k + 1)
            t0, t1, p, D0 = T(k), T(k1), P(k), rD(k)
            assume(touch(w(i, k) == 0), touch(w(j, k) == 0), touch(t0 == 0), touch(t1 == 0))
            names = dict(t0=t0, t1=t1, p=p, D0=D0, s=s_, d=d_, Li=L_(i, k), Lj=L_(j, k), wi=w(i, k1), wj=w(j, k1), vi=w(i, k), vj=w(j, k),
                         Ni=nL(i, k), Nj=nL(j, k), b=nb(k), D1=nD(k))
            v = {q: c.const(q, Real) for q in names}
            hyp = lambda v: [v['t0'] > 0, v['t1'] > 0, v['D0'] > 0, v['t0'] == v['t1'] + v['s'] * (v['p'] * v['p']) / v['D0'],
                             v['D1'] * v['t0'] == v['D0'] * v['t1'] * v['d'], v['b'] * v['D0'] * v['t1'] == -v['s'] * v['p'],
                             v['vi'] == v['wi'] + v['Li'] * v['p'], v['vj'] == v['wj'] + v['Lj'] * v['p'],
                             v['Ni'] == v['Li'] + v['wi'] * v['b'], v['Nj'] == v['Lj'] + v['wj'] * v['b']]
            for h in hyp(names):
                prove('one column of the product: premise', h)
            saved, c.facts = c.facts, hyp(v)
            t0, t1, p, D0, s, d, Li, Lj, wi, wj, vi, vj, Ni, Nj, b, D1 = (v[q] for q in names)
            try:
                step = lambda nm, g: prove('one column of the product: ' + nm, g)
                step('gain of the factor', D0 * t0 == D0 * t1 + s * p * p)
                step('coefficient of the last term', t1 * (1 - p * b) == t0)
                c.facts = hyp(v) + [D0 * t0 == D0 * t1 + s * p * p, t1 * (1 - p * b) == t0]
                m = d * ((D0 * t1) * Li * Lj - s * p * (Li * wj + Lj * wi) - s * p * b * wi * wj)
                c.facts = [v['D1'] * v['t0'] == v['D0'] * v['t1'] * v['d'], Ni == Li + wi * b, Nj == Lj + wj * b]
                step('expansion', t0 * (D1 * Ni * Nj) == d * (D0 * t1) * (Li + wi * b) * (Lj + wj * b))
                c.facts = [b * D0 * t1 == -s * p]
                step('coefficient times the pivot', d * (D0 * t1) * (Li + wi * b) * (Lj + wj * b) == m)
                c.facts = [D0 * t0 == D0 * t1 + s * p * p, vi == wi + Li * p, vj == wj + Lj * p]
                step('collected', m - t0 * (d * D0 * Li * Lj) == -d * s * (vi * vj - wi * wj * (1 - p * b)))
                c.facts = [t0 * (D1 * Ni * Nj) == m, m - t0 * (d * D0 * Li * Lj) == -d * s * (vi * vj - wi * wj * (1 - p * b)), t1 * (1 - p * b) == t0, t0 > 0, t1 > 0]
                q = c.const('q', Real)
                c.facts = c.facts + [q == 1 - p * b]
                c.facts = [t0 * (D1 * Ni * Nj - d * D0 * Li * Lj) == -d * s * (vi * vj - wi * wj * q), q == t0 / t1, t0 > 0, t1 > 0]
                step('in terms of the factors', D1 * Ni * Nj - d * D0 * Li * Lj == -d * s * (vi * vj / t0) - -d * s * (wi * wj / t1))
            finally:
                c.facts = saved
            assume(nD(k) * nL(i, k) * nL(j, k) - d_ * (rD(k) * L_(i, k) * L_(j, k)) == F(k) - F(k1))
        sy, sx = telescope_rule('one column of the product', n, F, (1, Y), (-d_, X), how=how)
        prove('last term of the telescope', F(n.t) == 0)
        derive('first term of the telescope', F(z3.IntVal(0)) == -d_ * s_ * (Pi * Pj), T(z3.IntVal(0)) == 1, Pi == w(i, z3.IntVal(0)), Pj == w(j, z3.IntVal(0)))
        prove('the matrix is scaled and shrunk along the step', to_real(rs(i, j)) == (to_real(rP(i, j)) - s_ * (Pi * Pj)) * d_)
        derive('the matrix stays the product of its factors', Implies(to_real(rP(i, j)) == sx, to_real(rs(i, j)) == sy),
               to_real(rs(i, j)) == (to_real(rP(i, j)) - s_ * (Pi * Pj)) * d_, sy + -d_ * sx == F(z3.IntVal(0)) - F(n.t), F(n.t) == 0, F(z3.IntVal(0)) == -d_ * s_ * (Pi * Pj),
               general=(F(n.t), F(z3.IntVal(0)), d_, s_, Pi, Pj, sx, sy, to_real(rs(i, j)), to_real(rP(i, j))))
        prove('the half-space is unchanged', same_array(g, Arr.make((n,), 'real', rg)))
    us.append(Unit(E, 'Ellipsoid.cut', d_cut))
    return us


# ------------------------------------------------------------------------------------------------ C14
class Walk(Opq):
    """a chain of states V(run, steps): reset starts a new run at its starting point, advance moves a number of steps on"""

    def __init__(self, d):
        self.run, self.steps = symint('run'), 0
        self._pv_d, self._pv_V = d, ctx().func('V', Int, Int, Int, Real)

    @property
    def dim(self):
        return self._pv_d

    def reset(self):
        self.run = self.run + 1
        self.steps = 0

    def advance(self, steps):
        self.steps = self.steps + steps
        r, s = t_(self.run), t_(self.steps)
        V = self._pv_V
        return Arr.make((self._pv_d,), 'real', lambda j: V(r, s, j))


def units_C14(E):
    # the contract of intersection, used below, is discharged here too: the chain stays inside only if the chord does
    us = [u for u in units_C28(E) if u.name.startswith(('BoundedPolyhedralCone.intersection[i', 'BoundedPolyhedralCone.__get_'))]

    # -------------------------------------------------------------------------------- one step stays inside
    def d_single(rounding):
        def drv():
            M = E.load(HR)
            P, body, n, d, A, row, sq = cone(E, 0)
            c = ctx()
            x0 = vec('x0', d)
            G = mat('G', d, d) if rounding else None
            o = M.HitAndRunChain(x0, body, G.copy() if rounding else None)
            x = vec('x', d)
            o._x = x.copy()
            rx, ra = x.reader(), A.reader()
            # the current point satisfies every constraint and lies in the unit ball: what the contract of intersection asks for
            st = []

            def intersection(center, direction):
                prove('the line starts at the current point', And(same_array(center, x), z3.BoolVal(center.ndim == 1)))
                v = direction.copy()
                rv = v.reader()
                prove('a direction of the space of the body', dterm(v.shape[0]) == d.t)
                t1, t2 = c.const('t1', Real), c.const('t2', Real)
                assume(t1 < t2)
                st.append((v, rv, t1, t2))
                return wrap(t1), wrap(t2)
            restub1(body, 'intersection', intersection)
            drawn = []
            rnd = M.np.random.uniform

            def uniform(low=0.0, high=1.0, size=None):
                r = rnd(low, high, size)
                drawn.append(r)
                return r
            saved = M.np.random.uniform
            M.np.random.uniform = uniform
            c.undo.append(lambda: setattr(M.np.random, 'uniform', saved))
            o._advance_single()
            if len(st) != 1 or len(drawn) != 1:
                c.unsupported('one chord and one draw on it are expected')
            v, rv, t1, t2 = st[0]
            t = to_real(t_(drawn[0]))
            prove('a draw from the chord', And(t1 <= t, t <= t2))
            y = o._x.reader()
            prove('same dimension', dterm(o._x.shape[0]) == d.t)
            want = lambda j: to_real(rx(j)) + t * to_real(rv(j))
            prove('the new point is the drawn point of the chord', forall(0, d.t, lambda j: to_real(y(j)) == want(j)))
            # contract of intersection (C28) at this parameter
            i = c.const('i', Int)
            assume(i >= 0, i < n.t, row(i, want) <= 0, sq(want) <= 1)
            fy, qy = row(i, y), sq(y)
            equate_sums()
            prove('the new point satisfies every constraint', fy <= 0)
            prove('the new point lies in the unit ball', qy <= 1)
            prove('the starting point and the constraints are unchanged', And(same_array(o._x0, x0), same_array(body.A, A)))
            if rounding:
                prove('the rounding matrix is unchanged', same_array(o._rounding_matrix, G))
        return drv
    us.append(Unit(E, 'HitAndRunChain._advance_single', d_single(False)))
    us.append(Unit(E, 'HitAndRunChain._advance_single[rounding]', d_single(True)))

    # -------------------------------------------------------------------------------- the number of steps
    cell = {}

    def adv_inv(L, t, g):
        o, s0, V, d = cell['o'], cell['s0'], cell['V'], cell['d']
        x = o._x.reader()
        return [('one step per iteration', And(t_(cell['ghost'].s) == s0 + t, dterm(o._x.shape[0]) == d.t)),
                ('the current point is the state reached', forall(0, d.t, lambda j: to_real(x(j)) == V(s0 + t, j), lambda j: [V(s0 + t, j)])),
                ('the starting point is kept', same_array(o._x0, cell['x0']))]

    class Ghost(Opq):
        pass

    def chain():
        M = E.load(HR)
        d = size('d', 1)
        x0 = vec('x0', d)
        given = x0.copy()
        o = M.HitAndRunChain(given, Obj('body', [], dim=prop(lambda: d)))
        return M, o, d, x0, given

    def d_advance():
        M, o, d, x0, given = chain()
        c = ctx()
        gh = Ghost()
        gh.s = symint('s')
        s0 = gh.s.t
        V = c.func('V', Int, Int, Real)
        o._x = Arr.make((d,), 'real', lambda j: V(s0, j))
        cell.update(o=o, s0=s0, V=V, d=d, ghost=gh, x0=x0)

        def single():
            s = t_(gh.s)
            x = o._x.reader()
            prove('a step starts from the current state', forall(0, d.t, lambda j: to_real(x(j)) == V(s, j)))
            gh.s = gh.s + 1
            s1 = t_(gh.s)
            o._x[...] = Arr.make((d,), 'real', lambda j: V(s1, j))
        restub1(o, '_advance_single', single)
        c.roots.append(('ghost', gh))
        steps = symint('steps')
        assume(steps.t >= 0)
        r = o.advance(steps)
        rr = r.reader()
        prove('exactly the requested number of steps', t_(gh.s) == s0 + steps.t)
        prove('the state reached is returned', And(dterm(r.shape[0]) == d.t, forall(0, d.t, lambda j: to_real(rr(j)) == V(s0 + steps.t, j))))
        prove('as an array of its own', z3.BoolVal(r.buf is not o._x.buf and r.buf is not o._x0.buf))
    us.append(Unit(E, 'HitAndRunChain.advance', d_advance, {'HitAndRunChain.advance:for#1': LoopSpec(inv=adv_inv)}))

    def d_reset():
        M, o, d, x0, given = chain()
        prove('starts at the starting point', same_array(o._x, x0))
        prove('on a copy of it', z3.BoolVal(o._x.buf is not given.buf and o._x.buf is not o._x0.buf))
        prove('its dimension', t_(o.dim) == d.t)
        o._x[...] = vec('moved', d)
        prove('moving keeps the starting point', And(same_array(o._x0, x0), same_array(given, x0)))
        o.reset()
        prove('back at the starting point', same_array(o._x, x0))
        prove('on a copy again', z3.BoolVal(o._x.buf is not o._x0.buf and o._x.buf is not given.buf))
    us.append(Unit(E, 'HitAndRunChain.reset', d_reset))

    # -------------------------------------------------------------------------------- warm-up, thinning, number of samples
    def single_inv(L, t, g):
        w, warm, thin, r0, d = (cell[k] for k in ('walk', 'warm', 'thin', 'r0', 'd'))
        V, S = w._pv_V, L.samples
        rs = S.reader()
        k = 1 + t
        return [('one run', t_(w.run) == r0 + 1), ('steps done', t_(w.steps) == warm + t * thin),
                ('shape of the samples', And(dterm(S.shape[0]) == cell['N'], dterm(S.shape[1]) == d.t)),
                ('rows filled so far', Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < k, j >= 0, j < d.t), to_real(rs(i, j)) == V(r0 + 1, warm + i * thin, j)),
                                              lambda i, j: [rs(i, j)]))]

    def multi_inv(L, t, g):
        w, warm, r0, d = (cell[k] for k in ('walk', 'warm', 'r0', 'd'))
        V, S = w._pv_V, L.samples
        rs = S.reader()
        return [('one run per sample', t_(w.run) == r0 + t), ('shape of the samples', And(dterm(S.shape[0]) == cell['N'], dterm(S.shape[1]) == d.t)),
                ('rows filled so far', Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < t, j >= 0, j < d.t), to_real(rs(i, j)) == V(r0 + 1 + i, warm, j)),
                                              lambda i, j: [rs(i, j)]))]

    def d_sampler(single):
        def drv():
            M = E.load(HR)
            c = ctx()
            warm, thin, N, d = size('warmup', 1), size('thin', 1), size('N', 1), size('d', 1)
            w = Walk(d)
            cell.update(walk=w, warm=warm.t, thin=thin.t, N=N.t, r0=w.run.t, d=d)
            r0 = w.run.t
            f = M.single_chain_sampler(warm, thin) if single else M.multiple_chain_sampler(warm)
            S = toarr(f(w, N))
            rs, V = S.reader(), w._pv_V
            prove('the requested number of hypotheses', And(z3.BoolVal(S.ndim == 2), dterm(S.shape[0]) == N.t, dterm(S.shape[1]) == d.t))
            if single:
                prove('warm-up first, then one every thin steps of the same run', forall2(N.t, d.t, lambda i, j: to_real(rs(i, j)) == V(r0 + 1, warm.t + i * thin.t, j)))
            else:
                prove('one run of the requested length per hypothesis', forall2(N.t, d.t, lambda i, j: to_real(rs(i, j)) == V(r0 + 1 + i, warm.t, j)))
        return drv
    us.append(Unit(E, 'single_chain_sampler', d_sampler(True), {'single_chain_sampler.sampler:for#1': LoopSpec(inv=single_inv), 'sampler:for#1': LoopSpec(inv=single_inv)}))
    us.append(Unit(E, 'multiple_chain_sampler', d_sampler(False), {'multiple_chain_sampler.sampler:for#1': LoopSpec(inv=multi_inv), 'sampler:for#1': LoopSpec(inv=multi_inv)}))

    # -------------------------------------------------------------------------------- the starting point
    def feasible(name, P, body, n, d, A, row, sq, x, strict=True):
        x = toarr(x)
        rx = x.reader()
        i = ctx().const('i', Int)
        assume(i >= 0, i < n.t)
        v, q = row(i, rx), sq(rx)
        return i, v, q

    def d_interior():
        M = E.load(POL)
        P, body, n, d, A, row, sq = cone(E, 1)
        c = ctx()
        ra = A.reader()
        sols = []

        def linprog(c=None, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, method=None, **kw):
            if A_ub is None or b_ub is None or A_eq is not None or kw:
                ctx().unsupported('another form of linear program')
            x = vec('lp', toarr(A_ub).shape[1])
            ok = SymBool(ctx().const('success', Bool))
            sols.append((toarr(A_ub).copy(), toarr(b_ub).copy(), x.copy(), ok))
            return Obj('res', [], success=prop(lambda: ok), x=prop(lambda: x))
        swap(M, 'scipy', Obj('scipy', [], optimize=prop(lambda: Obj('optimize', [], linprog=linprog))))
        x, err = raised(lambda: body.get_interior_point(), RuntimeError)
        if len(sols) != 1:
            c.unsupported('one linear program is expected')
        U, b, s, ok = sols[0]
        rU, rb, rs = U.reader(), b.reader(), s.reader()
        prove('variables of the program: the slack and the point', And(dterm(s.shape[0]) == d.t + 1, dterm(U.shape[0]) == n.t, dterm(b.shape[0]) == n.t))
        if err is not None:
            prove('rejected only without a solution of negative slack', Or(Not(t_(ok)), rs(0) >= 0))
            return
        prove('only with a solution of negative slack', And(t_(ok), rs(0) < 0))
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        rx = toarr(x).reader()
        # what a solution of the program satisfies
        whole, rest = head_rule(d, lambda j: to_real(rU(i, j)) * to_real(rs(j)))
        assume(whole <= to_real(rb(i)))
        w = lambda j: to_real(rs(z3.simplify(j + 1)))
        fw, qw = row(i, w), sq(w)
        equate_sums(i)
        prove('the constraint holds strictly at the solution', fw < 0)
        nrm = funcs.sqrt(qw)
        prove('the solution is not the origin', qw > 0)
        derive('its norm is positive', nrm > 0, qw > 0, nrm * nrm == qw, nrm >= 0)
        fx, qx = row(i, rx), sq(rx)
        prove('the point is the scaled solution', And(dterm(toarr(x).shape[0]) == d.t, forall(0, d.t, lambda j: to_real(rx(j)) == (to_real(as_term(0.99)) / nrm) * w(j))))
        k = c.const('scale', Real)
        assume(k == to_real(as_term(0.99)) / nrm)
        sum_rule('constraint at the scaled solution', d, (1, lambda j: to_real(ra(i, j)) * to_real(rx(j))), (-k, lambda j: to_real(ra(i, j)) * w(j)))
        sum_rule('norm of the scaled solution', d, (1, lambda j: to_real(rx(j)) * to_real(rx(j))), (-(k * k), lambda j: w(j) * w(j)))
        equate_sums(i)
        prove('linear in the point', And(fx == k * fw, qx == k * k * qw))
        derive('the starting point satisfies the constraint strictly', fx < 0, fx == k * fw, fw < 0, k == to_real(as_term(0.99)) / nrm, nrm > 0)
        derive('the starting point lies inside the unit ball', qx < 1, qx == k * k * qw, qw > 0, nrm > 0, nrm * nrm == qw, k == to_real(as_term(0.99)) / nrm)
    us.append(Unit(E, 'BoundedPolyhedralCone.get_interior_point', d_interior))

    def start_inv(L, t, g):
        return []

    def d_start(case):
        def drv():
            M = E.load(HR)
            P, body, n, d, A, row, sq = cone(E, 1)
            c = ctx()
            ra = A.reader()
            o = M.HitAndRunSampler(rounding=False, cache_samples=case != 'no cache')
            m, N = size('old dimension', 1), size('N', 0)
            elp, T = None, []
            if case == 'ellipsoid':
                ce = vec('center', d)
                elp = Obj('elp', [], center=prop(lambda: ce))
            if case == 'cache':
                old = mat('samples', N, m)
                o.samples = old.copy()
                T.append(mat('cut', N, d))
                rT = T[0].reader()
                qs = rows_of(N, lambda r: total(lambda j: to_real(rT(r, j)) * to_real(rT(r, j)), d))
                assume(forall(0, N.t, lambda r: qs(r) <= 1, lambda r: [qs(r)]))

                def truncate(new_dim):
                    prove('samples of the dimension of the body', t_(new_dim) == d.t)
                    return T[0]
                restub(o, 'truncate_samples', truncate)
            lp = vec('interior', d)
            restub1(body, 'get_interior_point', lambda: lp)
            seen, views = [], []
            real = type(body).is_inside_polytope
            restub1(body, 'is_inside_polytope', lambda x: (seen.append(toarr(x).copy()), views.append(toarr(x)), real(body, x))[2])
            x = method(o, 'get_starting_point')(body, elp)
            rx = toarr(x).reader()
            prove('a point of the space of the body', And(z3.BoolVal(toarr(x).ndim == 1), dterm(toarr(x).shape[0]) == d.t))
            if toarr(x).buf is lp.buf:
                prove('the interior point found by the linear program', same_array(toarr(x), lp))
                return
            i = c.const('i', Int)
            assume(i >= 0, i < n.t)
            if not seen:
                prove('only a point known to be inside is used', z3.BoolVal(False))
            rz = seen[-1].reader()
            fz, qz = row(i, rz), sq(rz)
            equate_sums(i)
            prove('the point examined satisfies the constraint', fz < 0)
            fx, qx = row(i, rx), sq(rx)
            if case == 'ellipsoid':
                nrm = funcs.sqrt(qz)
                prove('it is not the origin', qz > 0)
                derive('its norm is positive', nrm > 0, qz > 0, nrm * nrm == qz, nrm >= 0)
                prove('the starting point is the point examined, normalised', forall(0, d.t, lambda j: to_real(rx(j)) == to_real(rz(j)) / nrm))
                sum_rule('constraint at the normalised point', d, (nrm, lambda j: to_real(ra(i, j)) * to_real(rx(j))), (-1, lambda j: to_real(ra(i, j)) * to_real(rz(j))))
                sum_rule('norm of the normalised point', d, (nrm * nrm, lambda j: to_real(rx(j)) * to_real(rx(j))), (-1, lambda j: to_real(rz(j)) * to_real(rz(j))))
                equate_sums(i)
                derive('the starting point satisfies the constraint strictly', fx < 0, nrm * fx == fz, fz < 0, nrm > 0)
                derive('the starting point lies in the unit ball', qx <= 1, nrm * nrm * qx == qz, nrm * nrm == qz, nrm > 0)
                return
            prove('the starting point is the point examined', forall(0, d.t, lambda j: rx(j) == rz(j)))
            prove('the cached samples are not handed out', z3.BoolVal(toarr(x).buf is not o.samples.buf))
            equate_sums(i)
            prove('the starting point satisfies the constraint strictly', fx < 0)
            dims = views[-1].dims
            if dims[0][0] != 'fix' or views[-1].buf is not T[0].buf:
                c.unsupported('the cached samples are not examined row by row')
            it = dims[0][1]
            assume(touch(qs(it) == 0))
            equate_sums(it)
            prove('it is one of the cached samples', And(it >= 0, it < N.t))
            prove('the starting point lies in the unit ball', sq(rx) <= 1)
        return drv
    us.append(Unit(E, 'HitAndRunSampler.__get_starting_point[ellipsoid]', d_start('ellipsoid')))
    us.append(Unit(E, 'HitAndRunSampler.__get_starting_point[no cache]', d_start('no cache')))
    us.append(Unit(E, 'HitAndRunSampler.__get_starting_point[cache]', d_start('cache'), {'HitAndRunSampler.__get_starting_point:for#1': LoopSpec(inv=start_inv)}))

    def d_truncate():
        M = E.load(HR)
        c = ctx()
        o = M.HitAndRunSampler(rounding=False)
        N, m, d = size('N', 1), size('m', 1), size('d', 1)
        S = mat('samples', N, m)
        o.samples = S.copy()
        rS = S.reader()
        T = toarr(method(o, 'truncate_samples')(d))
        rT = T.reader()
        prove('every cached sample, in the dimension asked for', And(dterm(T.shape[0]) == N.t, dterm(T.shape[1]) == d.t))
        prove('cut, or extended by zeros', forall2(N.t, d.t, lambda i, j: to_real(rT(i, j)) == If(j < m.t, to_real(rS(i, j)), R0)))
        r = c.const('row', Int)
        assume(r >= 0, r < N.t)
        whole = total(lambda j: to_real(rS(r, j)) * to_real(rS(r, j)), m)
        part = total(lambda j: to_real(rT(r, j)) * to_real(rT(r, j)), d)
        ext = lambda j: z3.If(j < m.t, to_real(rS(r, j)) * to_real(rS(r, j)), R0)
        sm, sd = total(ext, m), total(ext, d)
        Lemma('a square is not negative', 1, lambda x: x * x >= 0).over(0, m.t, lambda j: (rS(r, j),), lambda j: [rS(r, j)])
        if c.branch(d.t <= m.t):
            prefix_rule('dropped coordinates', d, m, ext)
        else:
            prefix_rule('added coordinates', m, d, ext, zero=True)
        equate_sums(r)
        prove('the norm does not grow', part <= whole)
        prove('the cache is unchanged', same_array(o.samples, S))
    us.append(Unit(E, 'HitAndRunSampler.__truncate_samples', d_truncate))

    # -------------------------------------------------------------------------------- the rounding ellipsoid handed on
    def d_ellipsoid():
        M = E.load(HR)
        _, e, n, D, L, z = ellipsoid(E)
        c = ctx()
        o = M.HitAndRunSampler(rounding=True)
        if c.choose(2) == 0:
            prove('none before the first exploration', z3.BoolVal(method(o, 'compute_new_ellipsoid')(symint('new')) is None))
            return
        factor = bool(c.choose(2))
        P = mat('P', n, n)
        e.scale = P.copy() if factor else None
        o.ellipsoid_cache = e
        new = symint('new')
        assume(new.t >= 1)
        r, err = raised(lambda: method(o, 'compute_new_ellipsoid')(new), RuntimeError)
        if err is not None:
            prove('rejected unless the dimension is the same or one more', And(new.t != n.t, new.t != n.t + 1))
            return
        if r is e:
            prove('the cached one for the same dimension', new.t == n.t)
        else:
            prove('one dimension more', And(new.t == n.t + 1, t_(r.dim) == new.t))
            rz, rD, rL = z.reader(), D.reader(), L.reader()
            z2, D2, L2 = (a.reader() for a in (r.center, r.D, r.L))
            N, N1 = n.t, n.t + 1
            q = 1 + 1 / z3.ToReal(n.t)
            prove('shapes', And(dterm(r.center.shape[0]) == N1, dterm(r.D.shape[0]) == N1, dterm(r.L.shape[0]) == N1, dterm(r.L.shape[1]) == N1))
            prove('centre extended by zero', forall(0, N1, lambda j: to_real(z2(j)) == If(j < N, to_real(rz(j)), R0)))
            prove('diagonal scaled and extended', forall(0, N1, lambda j: to_real(D2(j)) == If(j < N, to_real(rD(j)) * q, 1 + z3.ToReal(n.t))))
            prove('factor extended by the identity', forall2(N1, N1, lambda i, j: to_real(L2(i, j)) == If(And(i < N, j < N), to_real(rL(i, j)), If(i == j, R1, R0))))
            if factor:
                rP, P2 = P.reader(), r.scale.reader()
                prove('matrix extended the same way', forall2(N1, N1, lambda i, j: to_real(P2(i, j)) == If(And(i < N, j < N), to_real(rP(i, j)) * q, If(i == j, 1 + z3.ToReal(n.t), R0))))
            else:
                prove('no matrix', z3.BoolVal(r.scale is None))
        prove('the cached one is unchanged', And(same_array(e.D, D), same_array(e.L, L), same_array(e.center, z), t_(e.dim) == n.t))
    us.append(Unit(E, 'HitAndRunSampler.__compute_new_ellipsoid', d_ellipsoid))

    # -------------------------------------------------------------------------------- the whole of sample
    def d_sample():
        M = E.load(HR)
        c = ctx()
        rounding, keep, cache_r = bool(c.choose(2)), bool(c.choose(2)), bool(c.choose(2))
        o = M.HitAndRunSampler(rounding=rounding, cache_samples=keep, rounding_cache=cache_r)
        N, n, d = size('N', 1), size('n', 1), size('d', 1)
        X, y = mat('X', n, d), vec('y', n)
        X0, y0 = X.copy(), y.copy()
        log = []
        L, D = mat('L', d, d), vec('D', d)
        rL, rD = L.copy().reader(), D.copy().reader()
        elp = Obj('elp', log, L=prop(lambda: L), D=prop(lambda: D))
        start, out = vec('start', d), mat('out', N, d)
        cone_ = Obj('cone', log, dim=prop(lambda: d))
        chain_ = Obj('chain', log)
        def Chain(*a, **k):
            log.append(('chain', a, k))
            return chain_

        def sampler(ch, k):
            log.append(('sampler', (ch, k), {}))
            return out
        swap(M, 'BoundedPolyhedralCone', lambda A: (log.append(('cone', (toarr(A).copy(),), {})), cone_)[1])
        swap(M, 'HitAndRunChain', Chain)
        cached = o.samples
        old_elp = Obj('old', log)
        o.chain_sampler = sampler
        if rounding:
            o.rounding_algorithm = Obj('rounding', log, fit=lambda body, e=None: elp)
        restub(o, 'compute_new_ellipsoid', lambda new_dim: (log.append(('extend', (new_dim,), {})), old_elp)[1])
        restub(o, 'get_starting_point', lambda body, e: (log.append(('start', (body, e), {})), start)[1])
        r = o.sample(X, y, N)
        names = [k for k, _, _ in log if not k.startswith('elp')]
        get = lambda k: [(a, kw) for kk, a, kw in log if kk == k]
        prove('one cone, one chain, one run of the sampler', z3.BoolVal(all(len(get(k)) == 1 for k in ('cone', 'chain', 'start', 'sampler'))))
        a, rx, ry = get('cone')[0][0][0].reader(), X0.reader(), y0.reader()
        prove('constraints signed by the labels', forall2(n.t, d.t, lambda i, j: a(i, j) == If(ry(i) == 1, -rx(i, j), rx(i, j))))
        (body, e), _ = get('start')[0]
        prove('the starting point is computed for this cone', z3.BoolVal(body is cone_ and e is (elp if rounding else None)))
        ca, ck = get('chain')[0]
        x0, cb = ca[0] if len(ca) > 0 else ck['x0'], ca[1] if len(ca) > 1 else ck['convex_body']
        rm = ca[2] if len(ca) > 2 else ck.get('rounding_matrix')
        prove('the chain runs in this cone from this point', z3.BoolVal(cb is cone_ and toarr(x0).buf is start.buf))
        if rounding:
            (fa, fk) = get('rounding.fit')[0]
            prove('the rounding starts from the cached ellipsoid', z3.BoolVal(fa[0] is cone_ and (fa[1] if len(fa) > 1 else fk.get('elp')) is old_elp))
            prove('adapted to the dimension of the cone', t_(get('extend')[0][0][0]) == d.t)
            rr = toarr(rm).reader()
            i, j = c.const('i', Int), c.const('j', Int)
            assume(i >= 0, i < d.t, j >= 0, j < d.t)
            prove('rounding matrix: the factor times the square root of the diagonal', to_real(rr(i, j)) == to_real(rL(i, j)) * funcs.sqrt(to_real(rD(j))))
            prove('the ellipsoid is cached when asked for', z3.BoolVal(o.ellipsoid_cache is (elp if cache_r else None)))
        else:
            prove('no rounding matrix', z3.BoolVal(rm is None and o.ellipsoid_cache is None))
        (sc, sk), _ = get('sampler')[0]
        prove('the requested number of hypotheses from this chain', And(z3.BoolVal(sc is chain_), t_(sk) == N.t))
        prove('the samples of the chain are returned', z3.BoolVal(r is out))
        prove('and cached when asked for', z3.BoolVal(o.samples is (out if keep else cached)))
        prove('the data are unchanged', And(same_array(X, X0), same_array(y, y0)))
    us.append(Unit(E, 'HitAndRunSampler.sample', d_sample))

    def d_clear():
        M = E.load(HR)
        o = M.HitAndRunSampler()
        o.samples, o.ellipsoid_cache = mat('S', size('N'), size('d')), Obj('elp', [])
        o.clear()
        prove('nothing is kept', And(z3.BoolVal(o.ellipsoid_cache is None), dterm(o.samples.shape[0]) == 0))
    us.append(Unit(E, 'HitAndRunSampler.clear', d_clear))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
