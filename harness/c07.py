"""Selection of the next point (C07)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('datasets of up to 8 points in every partition state of 3 points and random larger ones, arbitrary integer ranks (with ties), '
        'sample sizes around the number of unlabeled points; non-trivial: at least one unlabeled point')


def cases(seed, tier):
    n = 3
    for part in itertools.product('LIU', repeat=n):
        for ranks in ([3, 1, 2], [1, 1, 0], [0, 0, 0], [-2, 5, -2]):
            for sub in (None, 1, 2, 3, 9):
                yield {'n': n, 'part': ''.join(part), 'ranks': ranks, 'sub': sub, 'ids': [8, 1, 5]}
    r = rng_of(seed, 7)
    for n in (2, 3, 6):         # ranks that differ very little, or are huge
        for sc in (1e-9, 1e-12, 1e-15, 1e-300, 1e9, 1e150):
            yield {'n': n, 'part': 'U' * n, 'ranks': [(k * 5 % 7) * sc for k in range(1, n + 1)], 'sub': None, 'ids': list(range(3, 3 + n))}
    for _ in range(20000 if tier == 'thorough' else 1200):
        n = r.randint(1, 9)
        yield {'n': n, 'part': ''.join(r.choice('LIUU') for _ in range(n)), 'ranks': [r.randint(-3, 3) for _ in range(n)],
               'sub': r.choice([None, 1, 2, 3, n, n + 5]), 'ids': r.sample(range(100), n)}


def check(case):
    from aideme.explore import PartitionedDataset, LabeledSet
    from aideme.active_learning.active_learner import ActiveLearner
    from aideme.active_learning import RandomSampler
    n, ids = case['n'], case['ids']
    X = np.array([[float(i), float(case['ranks'][i]), 7. * i] for i in range(n)])
    row = {k: X[i].copy() for i, k in enumerate(ids)}
    ds = PartitionedDataset(X, np.array(ids))
    L = [k for k, p in zip(ids, case['part']) if p == 'L']
    if L:
        ds.move_to_labeled(LabeledSet([1] * len(L), None, L))
    I = [k for k, p in zip(ids, case['part']) if p == 'I']
    if I:
        ds.move_to_inferred(I)
    un = [k for k in ids if k not in L]
    asked = []

    class T(ActiveLearner):
        def fit(self, X, y): pass
        def predict(self, X): return X[:, 0]
        def clear(self): pass

        def rank(self, X):
            asked.append(X.copy())
            return X[:, 1].copy()

    def right(p, what):
        got = [int(i) for i in p.index]
        req(len(set(got)) == len(got), '%s: repeated points %s', what, got)
        for i, r in zip(got, p.data):
            req(i in un, '%s: point %s is labeled', what, i)
            req(np.array_equal(r, row[i]), '%s: point %s is paired with row %s', what, i, r)
        req(len(p.data) == len(got), '%s: sizes', what)
        return got
    sub = case['sub']
    if not un:
        return False
    got = right(T().next_points_to_label(ds, sub), 'proposal')
    req(len(got) == 1, 'proposed %s', got)
    req(len(asked) == 1, 'rank asked %d times', len(asked))
    avail = len(un) if sub is None else min(sub, len(un))
    req(len(asked[0]) == avail, 'rank asked about %d points, expected %d', len(asked[0]), avail)
    req(row[got[0]][1] == asked[0][:, 1].min(), 'rank %s proposed, minimum %s', row[got[0]][1], asked[0][:, 1].min())
    req(any(np.array_equal(row[got[0]], x) for x in asked[0]), 'the proposed point is not in the sample')
    req(len({tuple(x) for x in asked[0]}) == avail and all(any(np.array_equal(x, row[k]) for k in un) for x in asked[0]), 'sample')

    class Clf:
        pass
    for b in (1, 2, n + 1):
        got = right(RandomSampler(Clf(), b).next_points_to_label(ds, sub), 'random proposal')
        req(len(got) == min(b, avail), 'random proposal of %d points, expected %d', len(got), min(b, avail))
    req(raises(ValueError, RandomSampler, Clf(), 0), 'batch size 0 accepted')
    s = ds.unlabeled.sample(2)
    got = right(s, 'sample')
    req(len(got) == min(2, len(un)), 'sample size')
    full = ds.sample(None)
    req(len(full) == n, 'sample of everything')
    return True
