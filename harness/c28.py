"""Chords, separating constraints and ellipsoid updates of the real code (C28)."""
import numpy as np

from harness.base import Skip, req, rng_of

RULE = ('random cones with interior and exterior points and random directions; sequences of cuts of ellipsoids that keep their matrix; '
        'non-trivial: at least two constraints or two cuts')


def cases(seed, tier):
    r = rng_of(seed, 28)
    for k in range(6000 if tier == 'thorough' else 900):
        d = r.randint(2, 5)
        val = lambda: r.choice([1, -1, .5, 2, -2.25, .75, 3, -1.5, 0])
        row = lambda: [val() for _ in range(d)]
        yield {'kind': r.choice(['chord', 'oracle', 'cut', 'cut', 'round', 'sphere']), 'A': [row() for _ in range(r.randint(1, 5))], 'x': row(), 'v': row(),
               'scale': r.choice([.2, .5, .99, 1., 2.]), 'cuts': [[r.choice([0, 0, .1, -.1, -.3, 1., .3]), row()] for _ in range(r.randint(1, 6))],
               'seed': r.randint(0, 10 ** 6), 'flip': r.random() < .6,
               'unit': r.choice([1., 1., 1., 1e-4, 100.])}


def close(a, b, tol=1e-8):
    return np.allclose(a, b, rtol=tol, atol=tol)


def rounding(case):
    """complete roundings: every cut contains the body, the end is justified"""
    from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
    from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
    from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm
    rng = np.random.RandomState(case['seed'])
    A = np.array(case['A'], dtype=float)
    d = A.shape[1]
    x = rng.normal(size=d)
    A = A[np.abs(A.dot(x)) > .05]
    if not len(A):
        raise Skip()
    A = A * np.where(A.dot(x) > 0, -1, 1).reshape(-1, 1)
    body = BoundedPolyhedralCone(A)
    strategy, zc, sc = rng.choice(['default', 'opt', 'OPT']), bool(rng.randint(2)), bool(rng.randint(2))
    budget = [None, None, 1, 3][rng.randint(4)]
    algo = RoundingAlgorithm(budget, strategy=strategy, z_cut=zc, sphere_cuts=sc)
    cuts, own = [], Ellipsoid.cut

    def cut(self, b, g):
        z, P = self.center.copy(), self.L @ np.diag(self.D) @ self.L.T
        r = own(self, b, g)
        cuts.append((float(b), np.array(g), bool(r), z, P))
        return r
    Ellipsoid.cut = cut
    try:
        given = Ellipsoid(d, compute_scale_matrix=True) if rng.randint(2) else None
        e = algo.fit(body, given) if given is not None else algo.fit(body)
    except RuntimeError:
        if strategy == 'default':
            raise Skip()      # eigenvalues of a flat ellipsoid
        raise
    finally:
        Ellipsoid.cut = own
    req(given is None or e is given, 'another ellipsoid than the given one')
    for b, g, r, z, P in cuts:
        req(any(b == 0 and np.array_equal(g, a) for a in A) or np.linalg.norm(g) <= b * (1 + 1e-6), 'cut (%s, %s) does not contain the body', b, g.tolist())
    made = sum(c[2] for c in cuts)
    req(budget is None or made <= budget, '%s cuts with a budget of %s', made, budget)
    if budget is None or made < budget:
        al = A.dot(e.center) / np.sqrt(np.einsum('ij,jk,ik->i', A, e.L @ np.diag(e.D) @ e.L.T, A))
        thr = 1 / ((d + 1) * np.sqrt(d))
        if strategy != 'default':
            req(np.all(al <= -thr * (1 - 1e-6)), 'ended with a constraint at depth %s (threshold %s)', al.max(), -thr)
        else:
            P = e.L @ np.diag(e.D) @ e.L.T
            w, V = np.linalg.eigh(P)
            for k in range(d if d == 1 or np.min(np.diff(w)) > 1e-6 else 0):      # equal axes: the extremes are not determined
                for sg in (1, -1):
                    v = e.center + sg * np.sqrt(max(w[k], 0)) / (d + 1) * V[:, k]
                    req(np.all(A.dot(v) < 1e-7), 'ended with the extreme %s outside', v.tolist())
    F = e.L @ np.diag(e.D) @ e.L.T
    X = rng.normal(size=(200, d))
    X = X / np.linalg.norm(X, axis=1).reshape(-1, 1) * rng.uniform(0, 1, size=(200, 1)) ** (1 / d)
    X = X[(X.dot(A.T) < 0).all(axis=1)]
    if len(X) and np.linalg.eigvalsh(F)[0] > 1e-9:
        dist = np.einsum('ij,jk,ik->i', X - e.center, np.linalg.inv(F), X - e.center)
        req(np.all(dist <= 1 + 1e-5), 'the ellipsoid leaves out a point of the body (%s)', dist.max())


def sphere(case):
    """search for the best tangent cut"""
    from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
    from aideme.active_learning.version_space.hit_and_run.rounding import SphericalGradientDescent, alpha_on_sphere
    rng = np.random.RandomState(case['seed'])
    e = Ellipsoid(np.array(case['A']).shape[1])
    d = e.dim
    for _ in range(rng.randint(1, 4)):
        e.cut(0, rng.normal(size=d))
    func, grad = alpha_on_sphere(e)
    P = e.L @ np.diag(e.D) @ e.L.T
    f = lambda x: (x.dot(x) - e.center.dot(x)) / np.sqrt(x.dot(P).dot(x))
    x = rng.normal(size=d)
    x /= np.linalg.norm(x)
    req(abs(func(x) - f(x)) < 1e-9, 'value %s instead of %s', func(x), f(x))
    g = grad(x)
    req(abs(g.dot(x)) < 1e-9, 'gradient not tangent: %s', g.dot(x))
    t = rng.normal(size=d)
    t -= t.dot(x) * x
    h = 1e-6
    p = lambda s: (x + s * t) / np.linalg.norm(x + s * t)
    req(abs((f(p(h)) - f(p(-h))) / (2 * h) - g.dot(t)) < 1e-4 * (1 + abs(g.dot(t))), 'slope %s along the sphere, gradient %s', (f(p(h)) - f(p(-h))) / (2 * h), g.dot(t))
    seen = []

    def fun(x):
        seen.append(np.array(x))
        return func(x)
    mi, step = [None, 1, 4][rng.randint(3)], [None, .05][rng.randint(2)]
    o = SphericalGradientDescent(retraction=['sphere', 'project'][rng.randint(2)], max_iter=mi or 500, step_size=step)
    thr = [-np.inf, f(p(0))][rng.randint(2)]
    x0 = e.center if np.linalg.norm(e.center) > 0 else x
    r = o.optimize(x0, fun, grad, func_threshold=thr)
    for y in seen:
        req(abs(np.linalg.norm(y) - 1) < 1e-7, 'point of norm %s examined', np.linalg.norm(y))
    req(abs(np.linalg.norm(r.x) - 1) < 1e-7 and abs(r.fun - f(r.x)) < 1e-9, 'value %s at the returned point, %s in truth', r.fun, f(r.x))
    req(r.iters <= (mi or 500), '%s iterations, budget %s', r.iters, mi)
    req(r.converged or r.fun < thr or r.iters == (mi or 500), 'stopped without a reason')


def run(case):
    if case['kind'] == 'round':
        return rounding(case)
    if case['kind'] == 'sphere':
        return sphere(case)
    from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
    from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
    A, x, v = np.array(case['A'], dtype=float), np.array(case['x'], dtype=float), np.array(case['v'], dtype=float)
    if case['kind'] == 'chord':
        A, v = A * case.get('unit', 1.), v * case.get('unit', 1.)
    rng = np.random.RandomState(case['seed'])
    d = A.shape[1]
    if x.dot(x) == 0:
        raise Skip()
    x = x / np.linalg.norm(x) * case['scale']
    if case['flip']:                      # make the point satisfy the constraints
        A = A * np.where(A.dot(x) > 0, -1, 1).reshape(-1, 1)
    body = BoundedPolyhedralCone(A)
    A0, x0, v0 = A.copy(), x.copy(), v.copy()
    val, q = A.dot(x), x.dot(x)
    if case['kind'] == 'oracle':
        if abs(q - 1) < 1e-6 and case['scale'] != 2.:
            raise Skip()
        r = body.get_separating_oracle(x)
        if q < 1 and np.all(val < -1e-12):
            req(r is None, 'a point of the open body is separated by %s', r)
        elif q > 1 or np.any(val > 1e-12) or np.any(val == 0):
            req(r is not None, 'no constraint separates the point %s with values %s', x.tolist(), val.tolist())
            b, g = r
            req(g.dot(x) >= b - 1e-12, 'the point lies inside the returned half-space (%s, %s)', b, g.tolist())
            if q >= 1:
                req(b == 1 and close(g, x / np.sqrt(q)), 'outside the ball: half-space (%s, %s)', b, g.tolist())
            else:
                req(b == 0 and any(np.array_equal(g, a) for a in A), 'the half-space (%s, %s) is not one of the constraints', b, g.tolist())
        M = rng.normal(size=(4, d))
        inside = body.is_inside_polytope(M)
        req(np.array_equal(inside, (M.dot(A.T) < 0).all(axis=1)), 'inside test of several points: %s', inside)
        one = body.is_inside_polytope(x)
        req(bool(one) == bool(np.all(val < 0)) or np.any(np.abs(val) < 1e-12), 'inside test of %s with values %s: %s', x.tolist(), val.tolist(), one)
        req(np.array_equal(A, A0) and np.array_equal(x, x0), 'arguments changed')
        return
    if case['kind'] == 'chord':
        if v.dot(v) == 0 or not (q < 1 - 1e-6 and np.all(val < -1e-9)):
            raise Skip()
        with np.errstate(all='ignore'):
            t1, t2 = body.intersection(x, v)
        req(t1 < 0 < t2, 'the chord (%s, %s) does not contain the interior point', t1, t2)
        tol, ta = 1e-7, 1e-7 * max(np.abs(A).max(), 1e-300)
        for t in (t1, t1 + .25 * (t2 - t1), t2):
            z = x + t * v
            req(np.all(A.dot(z) <= ta) and z.dot(z) <= 1 + tol, 'point %s of the chord lies outside (values %s, norm %s)', t, A.dot(z).tolist(), z.dot(z))
        for t in (t1, t2):
            z = x + t * v
            req(abs(z.dot(z) - 1) < tol or np.any(np.abs(A.dot(z)) < ta), 'end %s is not on the boundary', t)
        req(np.array_equal(A, A0) and np.array_equal(x, x0) and np.array_equal(v, v0), 'arguments changed')
        return
    e = Ellipsoid(d, compute_scale_matrix=True)
    req(close(e.scale, e.L @ np.diag(e.D) @ e.L.T), 'a new ellipsoid is not consistent')
    G = np.array([g for b, g in case['cuts'] if np.any(np.array(g) != 0)], dtype=float)
    for b, g in case['cuts']:
        if len(G):
            want = np.array([a.dot(e.center) / np.sqrt(a.dot(e.scale).dot(a)) for a in G])
            req(close(e.compute_alpha(G), want, 1e-6), 'depths %s instead of %s', e.compute_alpha(G).tolist(), want.tolist())
        g = np.array(g, dtype=float)
        if g.dot(g) == 0:
            continue
        P, c = e.scale.copy(), e.center.copy()
        gam = np.sqrt(g.dot(P).dot(g))
        alpha = (g.dot(c) - b) / gam
        if abs(alpha - 1) < 1e-6 or abs(alpha + 1 / d) < 1e-6:
            continue
        g0 = g.copy()
        try:
            cut = e.cut(b, g)
        except RuntimeError:
            req(alpha >= 1, 'a half-space that meets the ellipsoid (depth %s) is rejected', alpha)
            req(np.array_equal(e.scale, P) and np.array_equal(e.center, c), 'a rejected cut changes the ellipsoid')
            break
        req(np.array_equal(g, g0), 'the half-space changed')
        req(alpha < 1, 'an ellipsoid outside the half-space (depth %s) is cut', alpha)
        req(bool(cut) == (alpha > -1 / d), 'depth %s: cut %s', alpha, cut)
        F = e.L @ np.diag(e.D) @ e.L.T
        req(close(e.scale, F, 1e-6), 'matrix %s and factorised form %s differ', e.scale.tolist(), F.tolist())
        req(np.all(e.D > 0), 'diagonal %s', e.D.tolist())
        req(close(np.tril(e.L), e.L) and close(np.diag(e.L), 1), 'the factor is not unit lower triangular: %s', e.L.tolist())
        if not cut:
            req(np.array_equal(e.scale, P) and np.array_equal(e.center, c), 'a shallow cut changes the ellipsoid')
            continue
        Pg = P.dot(g) / gam
        req(close(e.center, c - (1 + d * alpha) / (d + 1) * Pg, 1e-6), 'centre after the cut')
        want = d * d / (d * d - 1.) * (1 - alpha ** 2) * (P - 2 * (1 + d * alpha) / ((d + 1) * (1 + alpha)) * np.outer(Pg, Pg))
        req(close(e.scale, want, 1e-6), 'matrix after the cut %s, expected %s', e.scale.tolist(), want.tolist())
        if np.linalg.eigvalsh(e.scale)[0] < 1e-6:
            break


def check(case):
    run(case)
    return len(case['cuts']) > 1 if case['kind'] == 'cut' else len(case['A']) > 1
