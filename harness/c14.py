"""The real hit-and-run sampler on random consistent data (C14)."""
import numpy as np
import scipy.optimize

from harness.base import Skip, req, rng_of

RULE = ('labelings of random points by a random hypothesis, explored over one to three rounds of growing data (same dimension, or one '
        'more as in the kernel case), every option of the sampler, draws at random and near both ends of the chord; contradictory '
        'labels; starting from given ellipsoid centres inside and outside the unit ball; the chain samplers on a recording chain; non-trivial: more than one hypothesis drawn')


def cases(seed, tier):
    r = rng_of(seed, 14)
    for k in range(1500 if tier == 'thorough' else 800):
        kind = r.choice(['sample', 'sample', 'sample', 'chain', 'start', 'bad', 'centre', 'centre'])
        d, n = r.randint(2, 4), r.randint(1, 6)
        val = lambda: r.choice([1, -1, .5, 2, -2.25, .75, 3, -1.5])
        yield {'kind': kind, 'X': [[val() for _ in range(d)] for _ in range(n)], 'w': [val() for _ in range(d)], 'single': r.random() < .6,
               'warmup': r.choice([1, 2, 7, 20]), 'thin': r.choice([1, 2, 5]), 'cache': r.random() < .7, 'rounding': r.random() < .5,
               'rc': r.random() < .7, 'strategy': r.choice(['opt', 'default']), 'N': r.choice([1, 2, 5, 9]), 'rounds': r.randint(1, 3),
               'grow': r.random() < .3, 'u': r.choice([None, None, .001, .999, .5]), 'seed': r.randint(0, 10 ** 6), 'neg': r.choice([0., -1.]), 'scale': r.choice([.3, .8, .95, 1.05, 1.2, 1.9, 4.]), 'even': r.random() < .5,
               'unit': r.choice([1., 1., 1., 1e-4, 1e-3, 100.])}


def consistent(A, S, msg):
    for s in S:
        req(np.all(np.isfinite(s)), '%s: a hypothesis with undefined weights', msg)
        req(np.all(A.dot(s) <= 1e-9 * np.abs(A).sum(axis=1)), '%s: hypothesis %s violates the constraints %s', msg, s.tolist(), A.tolist())
        req(s.dot(s) <= 1 + 1e-9, '%s: hypothesis %s has norm above one', msg, s.tolist())


class Chain:
    """records what the chain samplers ask for"""

    def __init__(self, d):
        self.dim, self.log, self.state, self.run = d, [], None, 0
        self.x = np.zeros(d)

    def reset(self):
        self.run += 1
        self.state = 0

    def advance(self, steps):
        self.state = self.state + steps
        return np.array([self.run, self.state] + [0.] * self.dim)[:self.dim]


def run(case):
    from aideme.active_learning.version_space.hit_and_run import hit_and_run as H
    from aideme.active_learning.version_space.hit_and_run import polyhedral_cone as P
    np.random.seed(case['seed'])
    X, w = np.array(case['X'], dtype=float), np.array(case['w'])
    n, d = X.shape
    small = 1e-3
    if case['kind'] in ('sample', 'start', 'bad'):      # units of the data
        X, small = X * case.get('unit', 1.), small * case.get('unit', 1.)
    if case['kind'] == 'chain':
        for N in (1, case['N']):
            c = Chain(2)
            f = H.single_chain_sampler(case['warmup'], case['thin']) if case['single'] else H.multiple_chain_sampler(case['warmup'])
            S = f(c, N)
            req(S.shape == (N, 2), '%d hypotheses asked for, array of shape %s', N, S.shape)
            want = [[1, case['warmup'] + i * case['thin']] if case['single'] else [i + 1, case['warmup']] for i in range(N)]
            req(S.tolist() == want, 'runs and steps of the drawn hypotheses: %s, expected %s', S.tolist(), want)
        return
    margin = X.dot(w)
    keep = np.abs(margin) > small
    X, margin = X[keep], margin[keep]
    n = len(X)
    if n == 0:
        raise Skip()
    y = np.where(margin > 0, 1., case['neg'])
    A = X * np.where(y == 1, -1, 1).reshape(-1, 1)
    if case['kind'] == 'bad':
        s = H.HitAndRunSampler(single_chain=case['single'], warmup=2, thin=1, cache_samples=case['cache'], rounding=False)
        X2, y2 = np.vstack([X, X[:1]]), np.append(y, case['neg'] if y[0] == 1 else 1.)
        s.samples = np.array([w / np.linalg.norm(w) * .9]) if case['cache'] else s.samples
        found, linprog = [], scipy.optimize.linprog
        scipy.optimize.linprog = lambda *a, **k: found.append(linprog(*a, **k)) or found[-1]
        try:
            S = s.sample(X2, y2, 3)
        except RuntimeError:
            return
        except Exception:
            if found and -1e-12 < found[-1].x[0] < 0:      # rounding error of the solver: the optimum is zero
                raise Skip()
            raise
        finally:
            scipy.optimize.linprog = linprog
        req(False, 'contradictory labels: hypotheses %s are returned', S.tolist())
    if case['kind'] == 'start':
        body = P.BoundedPolyhedralCone(A)
        x = body.get_interior_point()
        req(np.all(A.dot(x) < 0) and x.dot(x) < 1, 'interior point %s is not strictly inside', x.tolist())
        x0 = x.copy()
        G = np.diag(np.random.rand(d) + .1) if case['rounding'] else None
        ch = H.HitAndRunChain(x, body, G)
        cnt, real = [0], H.HitAndRunChain._advance_single if hasattr(H.HitAndRunChain, '_advance_single') else None
        if real is not None:
            def single(self):
                cnt[0] += 1
                return real(self)
            H.HitAndRunChain._advance_single = single
        try:
            a = ch.advance(case['warmup'])
            a0 = a.copy()
            consistent(A, [a], 'chain')
            b = ch.advance(case['thin'])
            consistent(A, [b], 'chain')
            req(real is None or cnt[0] == case['warmup'] + case['thin'], '%d steps taken, %d asked for', cnt[0], case['warmup'] + case['thin'])
            req(np.array_equal(a, a0), 'a hypothesis handed out changed when the chain moved on')
            b[:] = 7.
            consistent(A, [ch.advance(1)], 'chain after the caller changed its hypothesis')
            ch.reset()
            req(np.array_equal(x, x0), 'the starting point changed')
            req(np.array_equal(ch.advance(0), x0), 'reset does not return to the starting point')
        finally:
            if real is not None:
                H.HitAndRunChain._advance_single = real
        return
    if case['kind'] == 'centre':           # the rounding found an ellipsoid whose centre is w, scaled: maybe outside the unit ball
        from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
        z = np.sign(w) if case['even'] else w.copy()
        z = z * (case['scale'] / np.linalg.norm(z))
        f = X.dot(z)
        ok = np.abs(f) > 1e-3
        if not ok.any():
            raise Skip()
        Xk, yk = X[ok], np.where(f[ok] > 0, 1., case['neg'])

        class Rounding:
            def fit(self, body, elp=None):
                e = Ellipsoid(d)
                e.center = z.copy()
                return e
        s = H.HitAndRunSampler(single_chain=case['single'], warmup=1, thin=1, rounding=True, cache_samples=case['cache'])
        if not hasattr(s, 'rounding_algorithm'):
            raise Skip()
        s.rounding_algorithm = Rounding()
        S = s.sample(Xk, yk, case['N'])
        req(S.shape == (case['N'], d), '%d hypotheses asked for, array of shape %s', case['N'], S.shape)
        consistent(Xk * np.where(yk == 1, -1, 1).reshape(-1, 1), S, 'centre of norm %s' % case['scale'])
        return
    grow = case['grow']
    s = H.HitAndRunSampler(single_chain=case['single'], warmup=case['warmup'], thin=case['thin'], cache_samples=case['cache'], rounding=case['rounding'],
                           rounding_cache=case['rc'], rounding_options={'strategy': case['strategy'], 'max_iter': 200})
    saved = np.random.uniform
    if case['u'] is not None:
        u = case['u']
        np.random.uniform = lambda a=0., b=1., size=None: a + (b - a) * u if size is None else saved(a, b, size)
    try:
        for k in range(case['rounds']):
            m = n if k == case['rounds'] - 1 else max(1, n - 2 * (case['rounds'] - 1 - k))
            if grow:                       # kernel case: one more column per round, lower triangular like a Cholesky factor
                m = 2 + k
                T = np.tril(np.ones((m, m))) + np.eye(m)
                Xk, yk = T, np.where(np.arange(m) % 2 == 0, 1., case['neg'])
            else:
                Xk, yk = X[:m], y[:m]
            Ak = Xk * np.where(yk == 1, -1, 1).reshape(-1, 1)
            X0, y0 = Xk.copy(), yk.copy()
            prev = s.samples
            S = s.sample(Xk, yk, case['N'])
            req(S.shape == (case['N'], Xk.shape[1]), '%d hypotheses asked for, array of shape %s', case['N'], S.shape)
            consistent(Ak, S, 'round %d' % k)
            req(np.array_equal(Xk, X0) and np.array_equal(yk, y0), 'the data changed')
    finally:
        np.random.uniform = saved


def check(case):
    run(case)
    return case['N'] > 1
