"""Initial samplers (C22)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('every labeling of up to 4 points, requested sizes 1 to 3, several seeds, and random larger ones; non-trivial: enough points of '
        'both classes')


def cases(seed, tier):
    for n in range(1, 5):
        for lab in itertools.product((0, 1), repeat=n):
            for a, b in itertools.product((1, 2), repeat=2):
                yield {'lab': list(lab), 'q': 2, 'a': a, 'b': b, 'np': n, 'salt': a}
    r = rng_of(seed, 22)
    for _ in range(10000 if tier == 'thorough' else 800):
        n = r.randint(2, 20)
        yield {'lab': [r.randint(0, 1) for _ in range(n)], 'q': r.randint(1, 4), 'a': r.randint(1, 4), 'b': r.randint(1, 4), 'np': r.randint(0, 10**6),
               'salt': r.randint(0, 20)}


def check(case):
    from aideme.explore import LabeledSet, PartitionedDataset
    from aideme.initial_sampling import stratified_sampler, random_sampler, fixed_sampler
    lab, q, a, b = case['lab'], case['q'], case['a'], case['b']
    n = len(lab)
    part = [[1] * q if l else [int((i * (k + 1) + case['salt']) % 3 == 0) if k else 0 for k in range(q)] for i, l in enumerate(lab)]
    ids = [(11 * i + 5) % 103 for i in range(n)]
    ls = LabeledSet(np.array(lab), np.array(part), np.array(ids))
    np.random.seed(case['np'])
    pos = {ids[i] for i in range(n) if lab[i] == 1}
    for strict in (False, True):
        neg = {ids[i] for i in range(n) if lab[i] != 1 and (not strict or not any(part[i]))}
        s = stratified_sampler(ls, a, b, strict)
        for _ in range(3):
            if len(pos) < a or len(neg) < b:
                req(raises(ValueError, s, None), 'too few points but no error')
                continue
            got = [int(x) for x in s(None)]
            req(len(got) == a + b, '%d points instead of %d + %d', len(got), a, b)
            req(len(set(got)) == len(got), 'repeated points %s', got)
            req(set(got[:a]) <= pos, 'positives %s of %s', got[:a], pos)
            req(set(got[a:]) <= neg, 'negatives %s of %s (in all subspaces: %s)', got[a:], neg, strict)
    s = stratified_sampler(ls)
    if pos and len(pos) < n:
        got = [int(x) for x in s(None)]
        req(len(got) == 2 and got[0] in pos and got[1] not in pos, 'default sizes: %s', got)
    for bad in ((0, 1), (1, 0), (-1, 1), (1, -3), (1.5, 1)):
        req(raises(ValueError, stratified_sampler, ls, *bad), 'sizes %s accepted', bad)
    X = np.arange(2. * n).reshape(n, 2)
    ds = PartitionedDataset(X, np.array(ids))
    L = [ids[i] for i in range(n) if (i + case['salt']) % 3 == 0]
    if L:
        ds.move_to_labeled(LabeledSet([1] * len(L), None, L))
    rest = set(ids) - set(L)
    for k in (1, 2, n, n + 1):
        got = [int(x) for x in random_sampler(k)(ds)] if rest else []
        req(len(got) == len(set(got)) == min(k, len(rest)) and set(got) <= rest, 'random sampler: %s of %s, size %d', got, rest, k)
    for bad in (0, -1, .5):
        req(raises(ValueError, random_sampler, bad), 'size %s accepted', bad)
    l = [5, 1, 9]
    req(list(fixed_sampler(l)(ds)) == [5, 1, 9], 'fixed sampler')
    return len(pos) >= a and n - len(pos) >= b
