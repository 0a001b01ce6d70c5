"""Penalties: loss, gradient, proximal operator, optimality test (C18)."""
import numpy as np

from harness.base import Fail, Skip, req, rng_of

RULE = ('random weights (with exact zeros, zero rows and zero groups), penalties, step sizes and partitions of the columns into groups; losses against '
        'their definition, gradients against central differences, proximal operators against random and coordinate perturbations and the fixed point of '
        'the optimality test; single entries off a subgradient by less or more than the tolerance; non-trivial: values compared')
KINDS = ['l1', 'l2', 'group', 'sparse', 'inter', 'huber', 'step', 'setters', 'learner', 'tol']


def cases(seed, tier):
    r = rng_of(seed, 18)
    for k in range(9000 if tier == 'thorough' else 900):
        yield {'kind': KINDS[k % len(KINDS)], 'seed': r.randint(0, 10 ** 6), 'n': r.randint(1, 4), 'd': r.randint(1, 5), 'pen': 10 ** r.uniform(-2, 1),
               'pen2': 10 ** r.uniform(-2, 1), 'eta': 10 ** r.uniform(-2, 1), 'groups': r.random() < .6, 'bias': r.random() < .5}


def smaller(case):
    for f in ('n', 'd'):
        if case[f] > 1:
            yield dict(case, **{f: case[f] - 1})
    for f in ('groups', 'bias'):
        if case[f]:
            yield dict(case, **{f: False})


def check(case):
    rs = np.random.RandomState(case['seed'])
    globals()['do_' + case['kind']](case, rs)
    return True


def weights(case, rs, d=None):
    x = rs.normal(size=(case['n'], d or case['d'])) * rs.choice([.1, 1, 10])
    z = rs.choice(4)
    if z == 1:
        x[rs.rand(*x.shape) < .4] = 0
    elif z == 2:
        x[rs.randint(case['n'])] = 0
    elif z == 3:
        x[:, rs.randint(x.shape[1])] = 0
    return x


def partition(case, rs, d=None):
    if not case['groups']:
        return None
    p = rs.permutation(d or case['d'])
    cut = sorted(set(rs.randint(0, len(p) + 1, rs.randint(0, 3))) - {0, len(p)})
    return [sorted(int(c) for c in g) for g in np.split(p, cut)]


def norm_of(x, groups):
    return sum(np.sqrt((x[:, g] ** 2).sum(axis=1)).sum() for g in groups)


def close(name, a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    req(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), '%s: %s, expected %s', name, a.tolist(), b.tolist())


def verify(name, o, value, x, rs, case, smooth=None, prox=True):
    """loss = value; gradient = slope of value at smooth entries; prox minimises; optimality test = fixed point"""
    x0 = x.copy()
    close(name + ' loss', o.loss(x), value(x))
    g = np.asarray(o.grad(x)) * np.ones_like(x)
    h = 1e-6 * max(1, np.abs(x).max())
    for i in range(x.shape[0]):
        for k in range(x.shape[1]):
            if smooth is None or smooth(x, i, k, 10 * h):
                e = np.zeros_like(x)
                e[i, k] = h
                num = (value(x + e) - value(x - e)) / (2 * h)
                req(abs(num - g[i, k]) <= 1e-3 * max(1, abs(num), np.abs(g).max()), '%s gradient at %s: %s, slope %s', name, (i, k), g[i, k], num)
    req(np.array_equal(x, x0), '%s changed its argument', name)
    if not prox:
        return
    eta = case['eta']
    p = o.proximal(x, eta)
    req(np.array_equal(x, x0), '%s.proximal changed its argument', name)
    req(np.shape(p) == x.shape and np.isfinite(p).all(), '%s proximal: %s', name, p)
    req((p * x >= -1e-12).all() and (np.abs(p) <= np.abs(x) + 1e-12).all(), '%s proximal flips or grows a weight: %s -> %s', name, x.tolist(), np.asarray(p).tolist())
    req((p[np.abs(x) == 0] == 0).all(), '%s proximal moves zero weights', name)
    cost = lambda z: value(z) * eta + ((x - z) ** 2).sum() / 2
    c = cost(p)
    cand = [x0, 0 * x0]
    for s in (1e-4, 1e-2, 1):
        for _ in range(4):
            cand.append(p + s * rs.normal(size=p.shape) * max(1e-3, np.abs(x).max()))
        for i in range(p.shape[0]):
            q = p.copy()
            q[i] *= 1 - min(s, .5)
            cand.append(q)
            q = p.copy()
            q[i] = 0
            cand.append(q)
            for k in range(p.shape[1]):
                for sg in (-1, 1):
                    q = p.copy()
                    q[i, k] += sg * s
                    cand.append(q)
    for z in cand:
        req(cost(z) >= c - 1e-9 * max(1, abs(c)), '%s proximal of %s with step %s: cost %s at %s, less at %s', name, x.tolist(), eta, c, np.asarray(p).tolist(), z.tolist())
    # the optimality test: exact subgradients are accepted, accepted points are fixed points of the proximal step
    v = (x - p) / eta
    req(bool(o.is_subgradient(v, p, 1e-6 * max(1, np.abs(v).max()))), '%s rejects the subgradient %s at %s', name, v.tolist(), np.asarray(p).tolist())
    for s in (.1, 1):
        w = v + s * rs.normal(size=v.shape) * max(.1, np.abs(v).max())
        w2 = v * (1 + s)
        w3 = rs.choice([-1, 1], size=v.shape) * rs.uniform(.5, 1.) * case['pen']
        for u, y in ((w, p), (w2, p), (w, 0 * p), (w3, 0 * p)):
            if bool(o.is_subgradient(u, y, 1e-9)):
                f = o.proximal(y + eta * u, eta)
                req(np.abs(f - y).max() <= 1e-6 * max(1, np.abs(y).max()) * max(1, eta), '%s accepts %s as a subgradient at %s', name, u.tolist(), np.asarray(y).tolist())


def P():
    import aideme.active_learning.factorization.penalty as m
    return m


def do_l1(case, rs):
    verify('L1Penalty', P().L1Penalty(case['pen']), lambda x: case['pen'] * np.abs(x).sum(), weights(case, rs), rs, case, smooth=lambda x, i, k, h: abs(x[i, k]) > h)


def do_l2(case, rs):
    verify('L2Penalty', P().L2Penalty(case['pen']), lambda x: case['pen'] * (x ** 2).sum(), weights(case, rs), rs, case)


def group_smooth(groups):
    def f(x, i, k, h):
        return all(k not in g or np.sqrt((x[i, g] ** 2).sum()) > 10 * h for g in groups)
    return f


def zero_at_zero(name, g, x, groups):
    for i in range(x.shape[0]):
        for c in groups:
            if (x[i, c] == 0).all():
                req((np.asarray(g)[i, c] == 0).all(), '%s: non-zero gradient %s for a zero group', name, np.asarray(g)[i, c])


def do_group(case, rs):
    x, gs = weights(case, rs), partition(case, rs)
    full = gs or [list(range(case['d']))]
    o = P().L2SqrtPenalty(case['pen'], gs)
    verify('L2SqrtPenalty', o, lambda x: case['pen'] * norm_of(x, full), x, rs, case, smooth=group_smooth(full))
    zero_at_zero('L2SqrtPenalty', o.grad(x), x, full)


def do_sparse(case, rs):
    x, gs = weights(case, rs), partition(case, rs)
    full = gs or [[k] for k in range(case['d'])]
    o = P().SparseGroupLassoPenalty(case['pen'], case['pen2'], gs)
    allc = [list(range(case['d']))]
    smooth = group_smooth(full + allc)
    verify('SparseGroupLassoPenalty', o, lambda x: case['pen'] * norm_of(x, full) + case['pen2'] * norm_of(x, allc), x, rs, case, smooth=smooth)


def do_inter(case, rs):
    def value(x):
        q = x ** 2
        return case['pen'] * sum((q[i] * q[j]).sum() for i in range(len(x)) for j in range(i))
    verify('InteractionPenalty', P().InteractionPenalty(case['pen']), value, weights(case, rs), rs, case, prox=False)


def do_huber(case, rs):
    delta = float(10 ** rs.uniform(-3, 0.5))
    x = weights(case, rs)

    def value(x):
        a = np.abs(x)
        return case['pen'] / delta * np.where(a > delta, delta * (a - delta / 2), a * a / 2).sum()
    o = P().HuberPenalty(case['pen'], delta)
    verify('HuberPenalty', o, value, np.ascontiguousarray(x), rs, case, prox=False, smooth=lambda x, i, k, h: abs(abs(x[i, k]) - delta) > h and delta > 20 * h)
    g = np.asarray(o.grad(x))
    close('HuberPenalty gradient', g, case['pen'] / delta * np.clip(x, -delta, delta))


def do_step(case, rs):
    import aideme.active_learning.factorization.optimization as O
    d = case['d'] + 1
    x, g = weights(case, rs, d), rs.normal(size=(case['n'], d))
    W = d - 1 if case['bias'] else d
    gs = partition(case, rs, W)
    pen = P().SparseGroupLassoPenalty(case['pen'], case['pen2'], gs)
    seen = []
    cls = [O.ProximalGradientDescent, O.FISTA][case['seed'] % 2]
    opt = cls(penalty_term=pen, step_size=case['eta'], max_iter=1, gtol=0)
    if not hasattr(opt, 'remove_bias_column'):
        raise Skip('remove_bias_column')
    opt.remove_bias_column = case['bias']
    res = opt.minimize(x, lambda z: seen.append(z.copy()) or 0., lambda z: g.copy())
    y = x - case['eta'] * g
    exp = y.copy()
    exp[:, :W] = pen.proximal(y[:, :W].copy(), case['eta'])
    if int(res.it) == 1:
        close('proximal step', res.x, exp)


def do_setters(case, rs):
    p = P()
    gs = partition(case, rs) or [[k] for k in range(case['d'])]
    x = weights(case, rs)
    o = p.SparseGroupLassoPenalty(case['pen'], case['pen2'])
    allc = [list(range(case['d']))]
    for groups in (None, gs, None, [[k] for k in range(case['d'])], gs):
        o.groups = groups
        full = groups or [[k] for k in range(case['d'])]
        close('loss after a change of groups', o.loss(x), case['pen'] * norm_of(x, full) + case['pen2'] * norm_of(x, allc))
        req(o.groups == groups, 'groups: %s, expected %s', o.groups, groups)
    o.penalty = case['eta']
    close('loss after a change of penalty', o.loss(x), case['eta'] * (norm_of(x, gs) + norm_of(x, allc)))
    for cls in ('L1Penalty', 'L2Penalty', 'L2SqrtPenalty', 'InteractionPenalty', 'HuberPenalty'):
        for bad in (0, -1., None, float('nan')):
            try:
                getattr(p, cls)(bad)
            except (ValueError, TypeError):
                continue
            raise Fail('%s accepts the penalty %s' % (cls, bad))
    q = p.L1Penalty(case['pen'])
    q.penalty = case['eta']
    close('new penalty', q.loss(x), case['eta'] * np.abs(x).sum())


def do_learner(case, rs):
    """one proximal step of a learner: bias neither penalised nor shrunk"""
    import aideme.active_learning.factorization as F
    import aideme.active_learning.factorization.optimization as O
    L = getattr(F, 'LinearFactorizationLearner', None)
    if L is None:
        from aideme.active_learning.factorization.linear import LinearFactorizationLearner as L
    d, n = case['d'], case['n']
    X, y = rs.normal(size=(12, d)), np.array([0., 1.] * 6)
    kinds = {'l1': lambda: P().L1Penalty(case['pen']), 'l2': lambda: P().L2Penalty(case['pen']), 'sp': lambda: P().SparseGroupLassoPenalty(case['pen'], case['pen2'])}
    kind = sorted(kinds)[case['seed'] % 3]
    x0 = rs.normal(size=(n, d + 1 if case['bias'] else d))
    pen = kinds[kind]()
    learner = L(optimizer=O.ProximalGradientDescent(step_size=case['eta'], max_iter=1, gtol=0), penalty_term=pen, add_bias=case['bias'])
    plain = L(optimizer=O.GradientDescent(step_size=case['eta'], max_iter=1, gtol=0, momentum=0.), add_bias=case['bias'])
    plain.fit(X, y, n, x0=x0.copy())
    learner.fit(X, y, n, x0=x0.copy())
    a = np.asarray(plain.weight_matrix) if hasattr(plain, 'weight_matrix') else None
    if a is None:
        raise Skip('weight_matrix')
    b = np.asarray(learner.weight_matrix)
    exp = a.copy()
    exp[:, :d] = kinds[kind]().proximal(a[:, :d].copy(), case['eta'])
    close('weights after one proximal step', b, exp, 1e-7)


def do_tol(case, rs):
    """one entry is off a subgradient by half the tolerance or by twice as much"""
    p = P()
    n, d, a, b = case['n'], case['d'], case['pen'], case['pen2']
    gs = partition(case, rs)
    for tol in (1e-3 * a, .3 * a, 3 * a, 30 * (a + b)):
        for zero in (True, False):
            x = np.zeros((n, d))
            i, k = rs.randint(n), rs.randint(d)
            s = rs.choice([-1., 1.])
            if not zero:
                x[i, k] = s * 10 ** rs.uniform(-2, 1)
            for name, o, edge in (('L1Penalty', p.L1Penalty(a), a), ('L2SqrtPenalty', p.L2SqrtPenalty(a, gs), a), ('SparseGroupLassoPenalty', p.SparseGroupLassoPenalty(a, b), a + b),
                                  ('L2Penalty', p.L2Penalty(a), None)):
                v = np.zeros((n, d))
                v[i, k] = s * edge if edge is not None else 2 * a * x[i, k]
                for off in (0, .5, 2.):
                    u = v.copy()
                    u[i, k] += s * off * tol
                    req(bool(o.is_subgradient(u, x, tol)) == (off < 1), '%s: with tolerance %s, %s at %s (off by %s) is %s', name, tol, u.tolist(), x.tolist(), off * tol,
                        'accepted' if off > 1 else 'rejected')
