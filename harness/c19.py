"""Optimisers: iteration loop, tolerances, budgets, schedules, restarts (C19)."""
import warnings

import numpy as np

from harness.base import Fail, Skip, req, rng_of

RULE = ('random convex quadratics over matrices of weights, every optimiser with random schedules, budgets and tolerances, run twice; the points seen by the '
        'callback are compared with an independent implementation of the documented iteration, the returned point, its value, the iteration count and the '
        'success flag with the stopping rules; starting points within tolerance; line search; BFGS; restarts through the factorization learner; invalid '
        'options; non-trivial: at least one run compared')
KINDS = ['gd', 'adam', 'prox', 'fista', 'gd', 'adam', 'noisy', 'line', 'start', 'bfgs', 'restarts', 'options', 'schedules', 'near']


def cases(seed, tier):
    r = rng_of(seed, 19)
    for k in range(14000 if tier == 'thorough' else 1400):
        yield {'kind': KINDS[k % len(KINDS)], 'seed': r.randint(0, 10 ** 6), 'n': r.randint(1, 3), 'd': r.randint(1, 4),
               'iters': r.choice([1, 2, 3, 5, 8, 30, 200]), 'step': r.choice([1e-3, .05, .2, .5]), 'adapt': r.choice(['fixed', 'power', 'exp']), 'every': r.randint(1, 4),
               'power': r.choice([.5, 1, 2]), 'decay': r.choice([.5, .9, 1.]), 'gtol': r.choice([0, 1e-4, 1e-2, .5]), 'rtol': r.choice([0, 0, 1e-3, .05]),
               'bias': r.random() < .5}


def smaller(case):
    for f in ('n', 'd', 'iters', 'every'):
        if case[f] > 1:
            yield dict(case, **{f: case[f] - 1})
    for f, v in (('adapt', 'fixed'), ('rtol', 0), ('gtol', 0), ('bias', False)):
        if case[f] != v:
            yield dict(case, **{f: v})


def check(case):
    rs = np.random.RandomState(case['seed'])
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['do_' + case['kind']](case, rs)
    return True


class Quad:
    def __init__(self, case, rs):
        self.t = rs.normal(size=(case['n'], case['d']))
        self.c = rs.uniform(.3, 2, size=(case['n'], case['d']))
        self.calls = []

    def f(self, x):
        self.calls.append(np.array(x, copy=True))
        return .5 * float(np.sum(self.c * (np.reshape(x, self.t.shape) - self.t) ** 2))

    def g(self, x):
        return self.c * (np.reshape(x, self.t.shape) - self.t)


def sched(case):
    kw = {'step_size': case['step']}
    if case['adapt'] != 'fixed':
        kw.update(adapt_step_size=True, adapt_every=case['every'], power=case['power'], exp_decay=case['decay'] if case['adapt'] == 'exp' else 0)

    def step(it):
        if case['adapt'] == 'fixed':
            return case['step']
        k = it // case['every']
        return case['step'] * case['decay'] ** k if case['adapt'] == 'exp' else case['step'] / (1 + k) ** case['power']
    return kw, step


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    req(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), '%s: %s, expected %s', what, a.tolist(), b.tolist())


def reference(x0, advance, gradok, case, withgrad=True):
    """points, success: the documented iteration"""
    xs, ok, it = [x0], False, 0
    edge = False
    while True:
        x = xs[-1]
        ok = False
        if it > 0:
            a, b = np.linalg.norm(x - xs[-2]), case['rtol'] * np.linalg.norm(x)
            edge |= b > 0 and abs(a - b) <= 1e-9 * b
            ok = a < b
        if not ok and withgrad and it < case['iters']:
            ok = gradok(x)
        if ok or it >= case['iters']:
            return xs, ok, edge
        xs.append(advance(x, it))
        it += 1


def run(name, o, q, x0, advance, reset, gradok, case, seen, withgrad=True, near=None):
    for turn in range(2):
        del seen[:], q.calls[:]
        start = x0.copy()
        res = o.minimize(x0, q.f, q.g)
        req(np.array_equal(x0, start), '%s changed its starting point', name)
        reset()
        xs, ok, edge = reference(x0, advance, gradok, case, withgrad)
        if edge or not np.isfinite(xs[-1]).all():
            raise Skip
        it = len(xs) - 1
        req(len(seen) == res.it + 1, '%s: %s callbacks for %s iterations', name, len(seen), res.it)
        req(res.it <= case['iters'], '%s: %s iterations with a budget of %s', name, res.it, case['iters'])
        long = False
        for k, (a, b) in enumerate(zip(seen, xs)):
            if near is not None and k > 30:     # rounding errors are amplified: the first steps decide
                long = True
                break
            same(a, b, '%s, run %s, point %s' % (name, turn, k), 1e-7 if near is None or k < 10 else near)
        req(long or res.it == it, '%s (run %s): %s iterations, expected %s', name, turn, res.it, it)
        req(long or bool(res.success) == ok, '%s: success %s, expected %s', name, res.success, ok)
        same(res.x, seen[-1], name + ' returned point')
        same(res.fun, q.f(res.x), name + ' value at the returned point')


def base(case, seen):
    return {'gtol': case['gtol'], 'rel_tol': case['rtol'], 'max_iter': case['iters'], 'callback': lambda x: seen.append(np.array(x, copy=True))}


def tiny(q, case):
    return lambda x: np.linalg.norm(q.g(x)) < case['gtol']


def do_gd(case, rs):
    from aideme.active_learning.factorization.optimization import GradientDescent
    q, seen, st = Quad(case, rs), [], {}
    kw, step = sched(case)
    m = rs.choice([0., .5, .9])

    def advance(x, it):
        st['v'] = m * st['v'] + (1 - m) * q.g(x)
        return x - step(it) * st['v']
    o = GradientDescent(momentum=m, **kw, **base(case, seen))
    run('GradientDescent', o, q, rs.normal(size=q.t.shape), advance, lambda: st.update(v=0), tiny(q, case), case, seen)


def do_adam(case, rs):
    from aideme.active_learning.factorization.optimization import Adam
    q, seen, st = Quad(case, rs), [], {}
    kw, step = sched(case)
    b1, b2, eps = rs.choice([0., .5, .9]), rs.choice([.5, .999]), rs.choice([1e-8, 1e-2])

    def advance(x, it):
        g = q.g(x)
        st['m'], st['v'] = b1 * st['m'] + (1 - b1) * g, b2 * st['v'] + (1 - b2) * g * g
        return x - step(it) * (st['m'] / (1 - b1 ** (it + 1))) / (np.sqrt(st['v'] / (1 - b2 ** (it + 1))) + eps)
    o = Adam(beta1=b1, beta2=b2, epsilon=eps, **kw, **base(case, seen))
    run('Adam', o, q, rs.normal(size=q.t.shape), advance, lambda: st.update(m=0, v=0), tiny(q, case), case, seen, near=1e-6)


class Ridge:
    """a penalty of our own: .5 * lam * |w|^2"""
    def __init__(self, lam):
        self.lam = lam

    def proximal(self, x, eta):
        return x / (1 + eta * self.lam)

    def is_subgradient(self, v, x, tol):
        return np.linalg.norm(v - self.lam * x) <= tol


def prox_parts(case, rs, cls):
    from aideme.active_learning.factorization import optimization
    q, seen = Quad(case, rs), []
    kw, step = sched(case)
    pen = Ridge(rs.choice([.1, 1.]))
    bias = case['bias'] and case['d'] > 1
    o = getattr(optimization, cls)(penalty_term=pen, **kw, **base(case, seen))
    o.remove_bias_column = bias

    def prox(y, s):
        z = y - s * q.g(y)
        w = z.shape[1] - 1 if bias else z.shape[1]
        z[:, :w] = pen.proximal(z[:, :w], s)
        return z

    def gradok(x):
        g, w = q.g(x), x.shape[1] - 1 if bias else x.shape[1]
        return np.linalg.norm(g[:, w:]) <= case['gtol'] and pen.is_subgradient(-g[:, :w], x[:, :w], case['gtol'])
    return q, seen, step, o, prox, gradok


def do_prox(case, rs):
    q, seen, step, o, prox, gradok = prox_parts(case, rs, 'ProximalGradientDescent')
    run('ProximalGradientDescent', o, q, rs.normal(size=q.t.shape), lambda x, it: prox(x, step(it)), lambda: None, gradok, case, seen)


def do_fista(case, rs):
    q, seen, step, o, prox, gradok = prox_parts(case, rs, 'FISTA')
    st = {}

    def advance(x, it):
        y = x if st['y'] is None else st['y']
        nx, th = prox(y, step(it)), (1 + np.sqrt(1 + 4 * st['th'] ** 2)) / 2
        st['y'], st['th'] = nx + (st['th'] - 1) / th * (nx - x), th
        return nx
    run('FISTA', o, q, rs.normal(size=q.t.shape), advance, lambda: st.update(y=None, th=1.), gradok, case, seen, withgrad=False)


def do_noisy(case, rs):
    from aideme.active_learning.factorization.optimization import NoisyGradientDescent
    q, seen = Quad(case, rs), []
    kw, step = sched(case)
    c = dict(case, gtol=0, rtol=0, iters=min(case['iters'], 30))
    o = NoisyGradientDescent(**kw, **base(c, seen))
    res = o.minimize(rs.normal(size=q.t.shape), q.f, q.g)
    req(res.it == c['iters'] and len(seen) == res.it + 1, 'NoisyGradientDescent: %s iterations and %s callbacks, budget %s', res.it, len(seen), c['iters'])
    dirs = []
    for k in range(res.it):
        u = (seen[k] - seen[k + 1]) / step(k) - q.g(seen[k])
        if step(k) > 1e-6:
            req(abs(np.linalg.norm(u) - 1) < 1e-5, 'NoisyGradientDescent: noise of length %s at step %s', np.linalg.norm(u), k)
            dirs.append(u)
    if len(dirs) > 1 and u.size > 1:
        req(not np.allclose(dirs[0], dirs[1]), 'the same noise at every step')
    same(res.fun, q.f(res.x), 'value at the returned point')


def do_line(case, rs):
    from aideme.active_learning.factorization.optimization import GradientDescent
    q, seen = Quad(case, rs), []
    c = dict(case, gtol=1e-3, rtol=0, iters=min(case['iters'], 10))
    o = GradientDescent(momentum=0., step_size=None, **base(c, seen))
    res = o.minimize(rs.normal(size=q.t.shape), q.f, q.g)
    req(res.it <= c['iters'] and len(seen) == res.it + 1, 'line search: %s iterations, %s callbacks, budget %s', res.it, len(seen), c['iters'])
    for a, b in zip(seen, seen[1:]):
        g = q.g(a)
        s = np.sum(g * g) / np.sum(q.c * g * g)
        same(b, a - s * g, 'line search: minimiser along the gradient', 1e-4)


def do_start(case, rs):
    """a starting point within tolerance is returned unchanged"""
    from aideme.active_learning.factorization import optimization
    q, seen = Quad(case, rs), []
    kw, _ = sched(case)
    c = dict(case, gtol=max(case['gtol'], 1e-4))
    x0 = q.t.copy() + rs.choice([0, 1e-6]) * rs.normal(size=q.t.shape)
    for cls in ('GradientDescent', 'Adam', 'NoisyGradientDescent', 'ProximalGradientDescent'):
        del seen[:]
        o = getattr(optimization, cls)(**kw, **base(c, seen))
        if cls.startswith('Prox'):
            o.penalty_term = Ridge(0.)
        res = o.minimize(x0, q.f, q.g)
        req(res.success and res.it == 0 and np.array_equal(res.x, x0), '%s left a starting point within tolerance (%s iterations)', cls, res.it)
        same(res.fun, q.f(x0), 'its value')


def do_near(case, rs):
    """stopping by the relative change: first step shorter than the tolerance"""
    from aideme.active_learning.factorization.optimization import GradientDescent
    q, seen = Quad(case, rs), []
    c = dict(case, gtol=0, rtol=rs.choice([1e-3, .1, .5]), iters=200)
    o = GradientDescent(momentum=0., step_size=.4, **base(c, seen))
    run('GradientDescent (relative change)', o, q, rs.normal(size=q.t.shape) * 3, lambda x, it: x - .4 * q.g(x), lambda: None, lambda x: False, c, seen)
    o2 = GradientDescent(momentum=0., step_size=.4, gtol=0, rel_tol=c['rtol'])
    res = o2.minimize(np.zeros(q.t.shape) + 3, q.f, q.g)
    req(res.success, 'without a budget the search stopped before its tolerance')


def do_bfgs(case, rs):
    from aideme.active_learning.factorization.optimization import BFGS
    q, seen = Quad(case, rs), []
    c = dict(case, gtol=1e-6)
    x0 = rs.normal(size=q.t.shape)
    o = BFGS(gtol=c['gtol'], max_iter=c['iters'], callback=lambda x: seen.append(np.array(x)))
    s = x0.copy()
    res = o.minimize(x0, q.f, q.g)
    req(np.array_equal(x0, s), 'BFGS changed its starting point')
    req(res.nit <= c['iters'] and len(seen) == res.nit, 'BFGS: %s iterations, %s callbacks, budget %s', res.nit, len(seen), c['iters'])
    same(res.fun, q.f(res.x), 'BFGS: value at the returned point')
    if res.success:
        req(np.abs(q.g(res.x)).max() <= c['gtol'] * 1.0001, 'BFGS: converged with gradient %s', np.abs(q.g(res.x)).max())
    elif c['iters'] >= 30:
        req(np.abs(q.g(res.x)).max() <= 1e-4, 'BFGS did not converge on a quadratic')


def do_restarts(case, rs):
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    K, d, n = case['n'], case['d'], 6
    X, y = rs.normal(size=(n, d)), (rs.rand(n) < .5) * 1.
    tries = int(rs.randint(1, 5))
    vals = rs.choice([.1, .2, .3, .5, 2.], size=tries).tolist()
    out, starts = [], []

    class R(dict):
        __getattr__ = dict.__getitem__

    class Opt:
        def minimize(self, x0, f, g):
            starts.append(np.array(x0, copy=True))
            x = rs.normal(size=x0.shape)
            out.append((vals[len(out)], x))
            return R(x=x, fun=out[-1][0], success=True)
    o = LinearFactorizationLearner(Opt(), add_bias=case['bias'])
    x0 = rs.normal(size=(tries, K, d + case['bias']))
    res = o.fit(X, y, K, retries=tries, x0=x0.copy())
    req(len(starts) == tries, '%s runs for %s restarts', len(starts), tries)
    for a, b in zip(starts, x0):
        same(np.ravel(a), np.ravel(b), 'starting point')
    best = min(vals)
    req(res.fun == best, 'kept the result %s of %s', res.fun, vals)
    k = vals.index(best)
    w = out[k][1].reshape(K, -1)
    same(o.weights, w[:, :d], 'weights of the best result')
    if case['bias']:
        same(np.ravel(o.bias), w[:, d], 'bias of the best result')


def do_options(case, rs):
    from aideme.active_learning.factorization import optimization as O

    def rejected(cls, **k):
        try:
            getattr(O, cls)(**k)
        except ValueError:
            return True
        return False
    for cls in ('GradientDescent', 'Adam', 'FISTA', 'ProximalGradientDescent', 'NoisyGradientDescent'):
        for k in ({'gtol': -1e-3}, {'rel_tol': -.1}, {'max_iter': 0}, {'max_iter': -2}, {'max_iter': 1.5}, {'step_size': 0}, {'step_size': -.1}, {'batch_size': 0},
                  {'adapt_step_size': True, 'adapt_every': 0}, {'adapt_step_size': True, 'power': 0}, {'adapt_step_size': True, 'power': -1.}):
            req(rejected(cls, **k), '%s accepts %s', cls, k)
        req(not rejected(cls, gtol=0, rel_tol=0, max_iter=None, step_size=.1, batch_size=None), '%s rejects valid options', cls)
        req(not rejected(cls, max_iter=case['iters'], **sched(case)[0]), '%s rejects valid options', cls)
    for cls, k in (('GradientDescent', {'momentum': 1.1}), ('GradientDescent', {'momentum': -.1}), ('Adam', {'beta1': 1.1}), ('Adam', {'beta2': -.1}), ('Adam', {'epsilon': 0.})):
        req(rejected(cls, **k), '%s accepts %s', cls, k)


def do_schedules(case, rs):
    from aideme.active_learning.factorization import step_size_scheduler as S
    s, k, p, d = case['step'], case['every'], case['power'], case['decay']

    class Res(dict):
        __getattr__ = dict.__getitem__
    for it in range(0, 5 * k + 1):
        r = Res(it=it)
        same(S.FixedScheduler(s)(r, None), s, 'fixed step')
        same(S.PowerDecayScheduler(s, p, k)(r, None), s / (1 + it // k) ** p, 'power decay at %s' % it)
        same(S.ExponentialDecayScheduler(s, d, k)(r, None), s * d ** (it // k), 'exponential decay at %s' % it)
