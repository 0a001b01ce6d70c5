"""Convex polytope in two and three dimensions (C31)."""
import copy
import functools
import itertools
import pickle

import numpy as np

from harness.base import Skip, req, rng_of, raises

RULE = ('random histories of labeled points with small integer coordinates in the plane and in space (duplicates, points on a line or plane, points labeled both ways, '
        'batches, resets, pickled copies) against exact integer convexity tests; answers at all labeled points and on a grid, ends of the regions excluded; hulls '
        'and cones with larger tolerances against distances to the facets; non-trivial: some point was answered')


def normal(T):
    """integer normal of the plane through the d points"""
    if T.shape[1] == 2:
        a = T[1] - T[0]
        return np.array([a[1], -a[0]])
    a, b = T[1] - T[0], T[2] - T[0]
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def facets(pts):
    """outer normals and offsets of the convex hull; None when all points lie on a plane"""
    return _facets(tuple(sorted(set(map(tuple, pts)))))


@functools.lru_cache(4096)
def _facets(pts):
    P = np.array(pts, dtype=int)
    d = P.shape[1]
    out = {}
    full = False
    for T in itertools.combinations(range(len(P)), d):
        T = P[list(T)]
        n = normal(T)
        if not n.any():
            continue
        n = n // np.gcd.reduce(n)
        v = P.dot(n) - T[0].dot(n)
        full |= bool((v != 0).any())
        if (v <= 0).all():
            out[tuple(n)] = int(T[0].dot(n))
        if (v >= 0).all():
            out[tuple(-n)] = -int(T[0].dot(n))
    return out if full else None


def where(x, F):
    """1: strictly inside, 0: on the boundary, -1: outside"""
    if F is None:
        return -1
    m = max(int(np.dot(n, x)) - b for n, b in F.items())
    return -1 if m > 0 else 1 if m < 0 else 0


def cases(seed, tier):
    r = rng_of(seed, 31)
    yield {'kind': 'walk', 'd': 2, 'tol': 1e-12, 'ops': [[[[0, 0], [2, 0], [4, 0], [2, 1]], [1, 1, 1, 0]], [[[2, 4]], [1]]]}
    yield {'kind': 'walk', 'd': 2, 'tol': 1e-12, 'ops': [[[[0, 0], [4, 0], [0, 4]], [1, 1, 1]], [[[4, 0]], [0]]]}
    yield {'kind': 'walk', 'd': 2, 'tol': 1e-12, 'ops': [[[[0, 0], [4, 0], [2, 0]], [1, 1, 0]], [[[2, 4]], [1]]]}
    yield {'kind': 'walk', 'd': 3, 'tol': 1e-12, 'ops': [[[[0, 0, 0], [4, 0, 0], [0, 4, 0], [4, 4, 0], [1, 1, 1]], [1, 1, 1, 1, 0]], [[[0, 0, 4]], [1]]]}
    for n in (40, 150):   # many negative points before and after the one that the positive region reaches
        far = [[-40 - i % 7, -40 + i % 5] for i in range(n)]
        for xs in ([[6, 2]] + far, far + [[6, 2]]):
            yield {'kind': 'walk', 'd': 2, 'tol': 1e-12, 'ops': [[[[0, 0], [4, 0], [0, 4]], [1, 1, 1]], [xs, [0] * len(xs)], [[[4, 4]], [1]], [[[12, 2]], [1]]]}
            yield {'kind': 'walk', 'd': 2, 'tol': 1e-12, 'ops': [[xs, [0] * len(xs)], [[[0, 0], [4, 0], [0, 4]], [1, 1, 1]], [[[12, 2]], [1]]]}
    for i in range(6000 if tier == 'thorough' else 500):
        if i % 5 == 4:
            d = r.choice([2, 3])
            yield {'kind': 'tol', 'd': d, 'tol': r.choice([1e-12, .3, .8]), 'P': [[r.randint(-6, 6) for _ in range(d)] for _ in range(r.randint(d + 1, 7))],
                   'more': [[r.randint(-8, 8) for _ in range(d)] for _ in range(r.randint(1, 2))], 'v': [r.choice([-9, 9]) for _ in range(d)], 'seed': r.randint(0, 10 ** 6)}
            continue
        d = 3 if i % 4 == 3 else 2
        w = r.choice([2, 3, 4])
        c = [r.randint(-1, 1) for _ in range(d)]
        rad, noise, flat = r.choice([3, 6, 10]), r.choice([0, 0, 0, .05]), r.choice([0, 0, 1, 2])
        ops, n = [], 0
        for k in range(r.randint(1, 6)):
            X, y = [], []
            for _ in range(r.choice([1, 1, 2, 4, 6])):
                x = [r.randint(-w, w) for _ in range(d)]
                if flat > k:
                    x[-1] = 0
                X.append([2 * v for v in x])
                y.append(int((sum((a - b) ** 2 for a, b in zip(x, c)) <= rad) ^ (r.random() < noise)))
            ops.append([X, y])
            n += len(X)
            if n > 14:
                break
            q = r.random()
            if q < .04:
                ops.append('c')
            elif q < .3:
                ops.append('p' if q < .2 else 'd')
        yield {'kind': 'walk', 'd': d, 'tol': 1e-12, 'ops': ops}


def do_tol(case):
    from aideme.active_learning.dsm.convex.convex import ConvexHull, ConvexCone, ConvexError
    P, more, v, d, tol = np.array(case['P']), np.array(case['more']), np.array(case['v']), case['d'], case['tol']
    F = facets(case['P'])
    if F is None:
        raise Skip()
    Q = np.random.RandomState(case['seed']).uniform(-12, 12, size=(60, d))
    Q = np.vstack([Q, P * (1 + .02), P])

    def planes(F):
        A = np.array(list(F), dtype=float)
        s = np.linalg.norm(A, axis=1)
        return A / s[:, None], np.array([F[n] for n in F]) / s
    h, c = ConvexHull(P.astype(float), tol), None
    try:
        c = ConvexCone(P.astype(float), v.astype(float), tol)
    except ConvexError:
        pass
    pts = case['P']
    from aideme.active_learning.dsm.polytope import Polytope
    pol = Polytope(tol)
    if case['seed'] % 2:
        pol.update(np.vstack([P, v]).astype(float), np.append(np.ones(len(P)), 0.))
    else:
        pol.update(v.astype(float), np.zeros(1))
        pol.update(P.astype(float), np.ones(len(P)))
    for turn in range(3):
        F = facets(pts)
        A, b = planes(F)
        req(bool(pol.is_valid) == (where(v, F) < 0), 'polytope with tolerance %s: valid %s', tol, pol.is_valid)
        if pol.is_valid:
            G = facets(pts + [v.tolist()])
            B, e = planes({n: G[n] for n in G if np.dot(n, v) == G[n]})
            d1, d2 = (Q.dot(A.T) - b).max(axis=1), (Q.dot(B.T) - e).min(axis=1)
            ok = (np.abs(d1 - tol) > 1e-9) & (np.abs(d2 + tol) > 1e-9)
            want = np.where(d2 >= -tol, 0., np.where(d1 <= tol, 1., .5))
            got = np.asarray(pol.predict(Q))
            req(np.array_equal(got[ok], want[ok]), 'polytope with tolerance %s, positive %s, negative %s: answers %s, expected %s', tol, pts, v.tolist(), got.tolist(), want.tolist())
        dist = (Q.dot(A.T) - b).max(axis=1)
        ok = np.abs(dist - tol) > 1e-9
        if tol == 1e-12:
            ok |= dist < 1e-13
        got = np.asarray(h.is_inside(Q))
        req(got.shape == (len(Q),), 'hull: shape of the answers %s', got.shape)
        req(np.array_equal(got[ok], dist[ok] <= tol), 'hull of %s, tolerance %s: answers %s, expected %s', pts, tol, got.tolist(), (dist <= tol).tolist())
        V = sorted(set(map(tuple, np.asarray(h.vertices).astype(int).tolist())))
        want = sorted({tuple(p) for p in pts if where(p, facets([q for q in pts if q != p] or [p])) < 0 or facets([q for q in pts if q != p]) is None})
        req(V == want, 'hull of %s: vertices %s, expected %s', pts, V, want)
        inside = where(v, F) >= 0
        req(c is not None or inside, 'cone at %s of %s: conflict although the vertex is outside', v.tolist(), pts)
        if c is not None:
            req(not inside, 'cone at %s of %s: no conflict', v.tolist(), pts)
            G = facets(pts + [v.tolist()])
            A, b = planes({n: G[n] for n in G if np.dot(n, v) == G[n]})
            dist = (Q.dot(A.T) - b).min(axis=1)
            ok = np.abs(dist + tol) > 1e-9
            got = np.asarray(c.is_inside(Q))
            req(np.array_equal(got[ok], dist[ok] >= -tol), 'cone at %s of %s, tolerance %s: answers %s, expected %s', v.tolist(), pts, tol, got.tolist(), (dist >= -tol).tolist())
            req(bool(np.all(c.is_inside(v.astype(float)))), 'the vertex is not in its cone')
        if turn == 0:
            h, c = pickle.loads(pickle.dumps(h)), copy.deepcopy(c)
        if turn == 1:
            h.add_points(more.astype(float))
            if pol.is_valid:
                pol.update(more.astype(float), np.ones(len(more)))
            pts = pts + case['more']
            if c is not None:
                try:
                    c.add_points_to_hull(more.astype(float))
                except ConvexError:
                    c = None
            elif where(v, facets(case['P'])) >= 0:
                c = None
    return True


def check(case):
    from aideme.active_learning.dsm.polytope import Polytope
    if case['kind'] == 'tol':
        return do_tol(case)
    d = case['d']
    p = Polytope(case['tol'])
    P, N, alive, did = [], [], True, [False]
    pts = [x for op in case['ops'] if isinstance(op, list) for x in op[0]]
    r = np.random.RandomState(len(pts))
    lo, hi = np.min(pts) - 3, np.max(pts) + 4
    grid = np.vstack([np.array(pts), r.randint(lo, hi, size=(25, d)), [[50] * d, [-50] * d]])

    def right(what):
        req(bool(p.is_valid) == alive, '%s: is_valid %s, expected %s (positive %s, negative %s)', what, p.is_valid, alive, P, N)
        a = np.asarray(p.predict(grid.astype(float)))
        req(a.shape == (len(grid),), '%s: shape', what)
        if not alive:
            req((a == .5).all(), '%s: an invalid polytope answers %s', what, a.tolist())
            return
        F = facets(P) if P else None
        G = [facets(P + [n]) if P else None for n in N]
        for x, v in zip(grid.tolist(), a):
            if F is not None and where(x, F) == 0 and x not in P:
                continue                               # ends of the region
            if F is not None and where(x, F) >= 0:
                e = 1.
            else:
                e, edge = .5, False
                for n, g in zip(N, G):
                    if g is None:
                        continue
                    at = 1 if x == n else where(n, facets(P + [x]))
                    edge |= at == 0
                    e = 0. if at > 0 else e
                if edge and e == .5:
                    continue
            did[0] |= e != .5
            req(v == e, '%s: %s answered %s, expected %s (positive %s, negative %s)', what, x, v, e, P, N)
    for op in case['ops']:
        if op == 'c':
            p.clear()
            P, N, alive = [], [], True
            right('reset')
            continue
        if op in ('p', 'd'):
            p = pickle.loads(pickle.dumps(p)) if op == 'p' else copy.deepcopy(p)
            right('restored')
            continue
        X, y = np.array(op[0], dtype=float), np.array(op[1], dtype=float)
        if not alive:
            req(raises(RuntimeError, p.update, X, y), 'an invalid polytope accepted an update')
            continue
        ok = p.update(X, y)
        X += 1000.
        P = P + [list(x) for x, l in zip(*op) if l == 1]
        N = N + [list(x) for x, l in zip(*op) if l != 1]
        F = facets(P) if P else None
        alive = not any(where(n, F) >= 0 for n in N)
        req(bool(ok) == alive, 'update %s returned %s, expected %s (positive %s, negative %s)', op, ok, alive, P, N)
        right('after %s' % (op,))
    return did[0]


def smaller(case):
    if case['kind'] != 'walk':
        return
    ops = case['ops']
    for i in reversed(range(len(ops))):
        if len(ops) > 1 and any(isinstance(o, list) for o in ops[:i] + ops[i + 1:]):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
        if isinstance(ops[i], list) and len(ops[i][0]) > 1:
            for j in range(len(ops[i][0])):
                yield dict(case, ops=ops[:i] + [[q[:j] + q[j + 1:] for q in ops[i]]] + ops[i + 1:])
