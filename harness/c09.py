"""Dual-space model (C09)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('random explorations over up to 14 points of a line or a grid with a recording learner and every polytope mode, plain and '
        'factorized, consistent and conflicting labels; non-trivial: at least one fit')


def cases(seed, tier):
    yield {'n': 11, 'dim': 1, 'mode': 'persist', 'fact': False, 'proba': 0., 'sub': None, 'batches': [[[0, 10], [1, 1]], ['next', 5], [[4, 6], [0, 0]], ['next', 1]]}
    r = rng_of(seed, 9)
    # a cached point gets the other label when the alternative polytope takes over
    for c in range(2, 9):
        for fact in (False, True):
            yield {'n': 13, 'dim': 1, 'mode': 'persist', 'fact': fact, 'proba': .5, 'sub': None,
                   'batches': [[[0, 10], [1, 1]], ['next', -7 * c % 11], [[c - 1, c + 1], [0, 0]], ['next', 1]]}
    for _ in range(6000 if tier == 'thorough' else 700):
        dim = r.choice([1, 1, 2])
        n = r.randint(3, 14) if dim == 1 else 16
        lo, hi = sorted((r.randrange(4 if dim == 2 else n), r.randrange(4 if dim == 2 else n)))
        fact = r.random() < .5
        ids = list(range(n))
        r.shuffle(ids)
        batches, noise = [], r.choice([0, 0, .1])
        while ids and len(batches) < 9:
            k = r.randint(1, 3)
            b, ids = ids[:k], ids[k:]
            cs = lambda i: ([i] if dim == 1 else [i // 4, i % 4])
            batches.append([b, [[int(lo <= v <= hi) ^ int(r.random() < noise) for v in cs(i)] for i in b]])
            if r.random() < .6:
                batches.append(['next', r.randint(0, 99)])
            if r.random() < .04:
                batches.append('c')
        yield {'n': n, 'dim': dim, 'mode': r.choice(['positive', 'negative', 'persist', 'categorical']) if fact or dim == 1 else 'persist', 'fact': fact,
               'proba': r.choice([0., .5, 1.]), 'sub': r.choice([None, None, 2, 5]), 'batches': batches}
    # candidates of both labels are cached, then one subspace conflicts
    for _ in range(2000 if tier == 'thorough' else 250):
        ids = list(range(16))
        r.shuffle(ids)
        inside = lambda i: [int(1 <= v <= 2) for v in (i // 4, i % 4)]
        k = r.randint(4, 9)
        batches = [[ids[:k], [inside(i) for i in ids[:k]]]] + [['next', r.randint(0, 99)] for _ in range(r.randint(2, 5))]
        b = ids[k:k + r.randint(1, 3)]
        batches.append([b, [[inside(i)[0] ^ r.randint(0, 1), inside(i)[1]] for i in b]])
        batches += [['next', r.randint(0, 99)], [ids[k + 3:k + 5], [inside(i) for i in ids[k + 3:k + 5]]]]
        yield {'n': 16, 'dim': 2, 'mode': r.choice(['positive', 'persist']), 'fact': True, 'proba': r.choice([0., 0., .3]), 'sub': r.choice([None, 3]), 'batches': batches}


def check(case):
    from aideme.active_learning.active_learner import ActiveLearner
    from aideme.active_learning.dsm import DualSpaceModel, FactorizedDualSpaceModel
    from aideme.explore import PartitionedDataset, LabeledSet
    n, dim = case['n'], case['dim']
    if dim == 2 and not case['fact']:
        return False                # two columns, one polytope: hulls of collinear points are not built
    X = np.array([[float(i)] if dim == 1 else [float(i // 4), float(i % 4)] for i in range(n)])

    class Al(ActiveLearner):
        def __init__(self):
            self.fits, self.cleared, self.next, self.salt = [], 0, 0, 0

        def clear(self): self.cleared += 1; self.fits = []
        def fit(self, X, y): self.fits.append((X.copy(), y.copy()))
        def value(self, X): return (X.sum(axis=1) * 7 + self.salt) % 11
        def predict(self, X): return 100 + self.value(X)
        def predict_proba(self, X): return 200 + self.value(X)
        def rank(self, X): return self.value(X)

        def next_points_to_label(self, data, subsample=None):
            self.next += 1
            req(subsample == case['sub'], 'sample size %s passed to the learner', subsample)
            return super().next_points_to_label(data, subsample)

        def _select_next(self, sample):
            r = super()._select_next(sample)
            self.selected += [int(i) for i in r.index]
            return r
    al = Al()
    al.selected = []
    parts = [[0]] if dim == 1 else [[0], [1]]
    if case['fact']:
        dsm = FactorizedDualSpaceModel(al, case['proba'], [list(p) for p in parts], case['mode'])
    else:
        dsm = DualSpaceModel(al, case['mode'], case['proba'])
    poly = dsm.polytope_model
    ds = PartitionedDataset(X)
    cached = {}       # point -> label
    did = False

    def predictions():
        certain = poly.predict(X.copy()) if poly.is_valid else np.full(n, .5)
        for f, base in ((dsm.predict, 100), (dsm.predict_proba, 200)):
            e = np.where(certain == .5, base + al.value(X), certain)
            G = X.copy()
            a = f(G)
            req(np.array_equal(a, e), 'answers %s, expected %s', list(a), list(e))
            req(np.array_equal(G, X), 'predicting changed the data')
        req(np.array_equal(dsm.rank(X.copy()), al.value(X)), 'rank')
        return certain
    for op in case['batches']:
        if op == 'c':
            c = al.cleared
            dsm.clear()
            req(al.cleared == c + 1 and poly.is_valid and (poly.predict(X) == .5).all(), 'reset')
            cached = {}
            ds.clear()
            continue
        if op[0] == 'next':
            if ds.labeled_size == 0 or ds.unlabeled_size == 0:
                continue
            al.salt = op[1]
            before = (set(ds.labeled.index), set(ds.inferred.index))
            p, nx, nf = poly.predict(X.copy()), al.next, len(al.fits)
            if not poly.is_valid:
                p[:] = .5
            if poly.is_valid and not (p[list(ds.unlabeled.index)] == .5).any() and ds.unknown_size > 0:
                continue
            if poly.is_valid and ds.unknown_size > 0 and not terminates(case, ds, p, al, X):
                continue
            al.selected = []
            got = dsm.next_points_to_label(ds, case['sub'])
            if al.next == nx and poly.is_valid:
                fx, fy = al.fits[-1]
                for i in al.selected:
                    req(p[i] == .5 or any(np.array_equal(x, X[i]) and l == p[i] for x, l in zip(fx, fy)),
                        'point %s was proposed, the polytope is certain of it, but it was not added to the training set', i)
            req((set(ds.labeled.index), set(ds.inferred.index)) == before, 'a proposal changed the partitions')
            for i, x in zip(got.index, got.data):
                req(i in set(ds.unlabeled.index), 'labeled point %s proposed', i)
                req(np.array_equal(x, X[i]), 'point %s proposed with row %s', i, x)
                if al.next == nx:
                    req(p[i] == .5, 'proposed point %s although the polytope is certain of it', i)
            req(len(got) >= 1, 'nothing proposed')
            if al.next > nx:
                req(not poly.is_valid or ds.unknown_size == 0, 'left to the learner although points are unknown')
            elif len(al.fits) > nf:
                m = ds.labeled_size
                for x, l in zip(al.fits[-1][0][m:], al.fits[-1][1][m:]):
                    i = [j for j in range(n) if np.array_equal(X[j], x)][0]
                    req(p[i] != .5 and p[i] == l, 'cached point %s with label %s, polytope says %s', i, l, p[i])
                    cached[i] = l
                # a point may be cached several times
                req(all(i in ds.unlabeled.index for i in cached if i not in ds.labeled.index), 'cached points')
                training_multi(al, ds, cached, X)
            continue
        b, part = op
        b = [i for i in b if i not in set(ds.labeled.index)]
        if not b:
            continue
        part = [q for i, q in zip(op[0], op[1]) if i in b]
        part = [q if isinstance(q, list) else [q] * dim for q in part]
        ds.move_to_labeled(LabeledSet([min(q) for q in part], part, b))
        ok = poly.is_valid
        old = dict(cached)
        inferred = set(ds.inferred.index)
        nf = len(al.fits)
        dsm.fit_data(ds)
        did = True
        req(nf < len(al.fits) <= nf + 2, 'learner fitted %d times', len(al.fits) - nf)
        if poly.is_valid:
            p = poly.predict(X.copy())
            changed = {i: p[i] for i in old if p[i] != .5}
            cached = changed
        elif ok:
            cached = {}
        training_multi(al, ds, cached, X)
        if poly.is_valid:
            p = poly.predict(X.copy())
            for i in ds.unknown.index:
                req(p[i] == .5, 'point %s is unknown although the polytope says %s', i, p[i])
            for i in ds.inferred.index:
                req(p[i] != .5, 'point %s is inferred although the polytope is not certain', i)
        elif ok:
            req(ds.inferred_size == 0, 'inferred points kept by an invalid polytope')
        else:
            req(set(ds.inferred.index) <= inferred, 'an invalid polytope inferred points')
        predictions()
    return did


def training_multi(al, ds, cached, X):
    """the last fit used all labeled points and the cached ones (a candidate may be cached more than once)"""
    fx, fy = al.fits[-1]
    lx, ly = ds.training_set()
    m = len(lx)
    req(len(fx) == len(fy), 'sizes of the training set')
    req(np.array_equal(fx[:m], lx) and np.array_equal(fy[:m], ly), 'not fitted on all labeled points with their labels')
    got = {(tuple(x), l) for x, l in zip(fx[m:], fy[m:])}
    exp = {(tuple(X[i]), l) for i, l in cached.items()}
    req(got == exp, 'cached points %s, expected %s', sorted(got), sorted(exp))


def terminates(case, ds, p, al, X):
    """the search is only promised to end when an uncertain point can be selected: the learner's rank is fixed here"""
    def first(idx):
        v = al.value(X[idx])
        return p[idx[int(np.argmin(v))]] == .5
    if case['sub'] is not None:
        return p[list(ds.unknown.index)].tolist().count(.5) > 0 and case['proba'] > 0
    ok_u, ok_l = first(np.array(ds.unknown.index)), first(np.array(ds.unlabeled.index))
    return (ok_u and case['proba'] > 0) or (ok_l and case['proba'] < 1)


def smaller(case):
    ops = case['batches']
    for i in reversed(range(len(ops))):
        yield dict(case, batches=ops[:i] + ops[i + 1:])
