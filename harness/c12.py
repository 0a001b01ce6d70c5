"""One-dimensional convex polytope (C12)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('all sequences of up to 4 labeled points of {0..4}, one by one, in one batch and in two, and random ones with resets and other '
        'tolerances; answers probed on a grid of halves around all points; non-trivial: at least one update')


def cases(seed, tier):
    for n in (1, 2, 3, 4):
        for xs in itertools.product(range(4), repeat=n):
            if n == 4 and tier != 'thorough' and hash(xs) % 4:
                continue
            for ls in itertools.product((0, 1), repeat=n):
                for cut in ((1, n) if n > 1 else (1,)) + ((2,) if n > 2 else ()):
                    yield {'tol': 1e-12, 'ops': [[list(xs[i:i + cut]), list(ls[i:i + cut])] for i in range(0, n, cut)]}
    for n in (30, 130, 300):    # many negative points before and after the one that the positive interval reaches
        for far in ([-10.], [-10., -11.], [20., 21.], [-10., 20.]):
            many = [(far * n)[i] + i / 1024 for i in range(n)]
            for xs in ([5.] + many, many + [5.]):
                yield {'tol': 1e-12, 'coarse': True, 'ops': [[[0., 1.], [1, 1]], [xs, [0] * len(xs)], [[3.], [1]], [[6.], [1]]]}
                yield {'tol': 1e-12, 'coarse': True, 'ops': [[xs, [0] * len(xs)], [[0., 1.], [1, 1]], [[5.], [1]]]}
    r = rng_of(seed, 12)
    for _ in range(20000 if tier == 'thorough' else 1200):
        lo, hi = sorted((r.randint(-10, 10), r.randint(-10, 10)))
        ops = []
        for _ in range(r.randint(1, 5)):
            m = r.randint(1, 4)
            xs = [r.randint(-14, 14) / 2 + r.choice([0, 0, 0, 1e-10, -1e-10, 3e-9]) for _ in range(m)]
            ops.append([xs, [int((lo <= 2 * x <= hi) ^ (r.random() < .03)) for x in xs]])
            if r.random() < .06:
                ops.append('c')
        yield {'tol': r.choice([1e-12, 1e-3, 1.]), 'ops': ops}


def check(case):
    from aideme.active_learning.dsm.polytope import Polytope
    p = Polytope(case['tol'])
    P, N, alive, did = [], [], True, False
    pts = sorted({x for op in case['ops'] if op != 'c' for x in op[0]})
    grid = sorted({x + e for x in (pts[::40] + [0., 1., 5.] if case.get('coarse') else pts) for e in (-100, -.5, -.25, 0, .25, .5, 100)})

    def right(what):
        req(bool(p.is_valid) == alive, '%s: is_valid %s, expected %s', what, p.is_valid, alive)
        a = np.asarray(p.predict(np.array(grid, dtype=float).reshape(-1, 1)))
        req(a.shape == (len(grid),), '%s: shape', what)
        for x, v in zip(grid, a):
            e = .5
            if alive:
                if len(P) >= 2 and min(P) <= x <= max(P):
                    e = 1.
                if P and any((max(P) < n <= x) or (x <= n < min(P)) for n in N):
                    e = 0.
            req(v == e, '%s: %s answered %s, expected %s (positive %s, negative %s)', what, x, v, e, P, N)
    if grid:
        right('new')
    for op in case['ops']:
        if op == 'c':
            p.clear()
            P, N, alive = [], [], True
            right('reset')
            continue
        X, y = np.array(op[0], dtype=float).reshape(-1, 1), np.array(op[1], dtype=float)
        if not alive:
            req(raises(RuntimeError, p.update, X, y), 'an invalid polytope accepted an update')
            continue
        X0 = X.copy()
        r = p.update(X, y)
        did = True
        X += 1000.     # the polytope must keep its own copy
        P += [float(x) for x, l in zip(*op) if l == 1]
        N += [float(x) for x, l in zip(*op) if l != 1]
        alive = not (P and any(min(P) <= n <= max(P) for n in N))
        req(bool(r) == alive, 'update returned %s, expected %s', r, alive)
        right('after %s' % (op,))
    return did


def smaller(case):
    ops = case['ops']
    for i in reversed(range(len(ops))):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
        if isinstance(ops[i], list) and len(ops[i][0]) > 1:
            for j in range(len(ops[i][0])):
                yield dict(case, ops=ops[:i] + [[q[:j] + q[j + 1:] for q in ops[i]]] + ops[i + 1:])
