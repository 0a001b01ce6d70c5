"""Label noise (C21)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('labeled sets of up to 3 points with up to 3 partitions and random larger ones, rates 0, 1 and between, iterations around the '
        'skipped ones, several random seeds; non-trivial: at least one point')


def cases(seed, tier):
    for n in range(1, 4):
        for q in (1, 2, 3):
            for lab in itertools.product((0, 1), repeat=n):
                for rate in (0, 1, .5):
                    for it, skip in ((0, 0), (1, 0), (2, 2), (3, 2), (0, 3)):
                        yield {'lab': list(lab), 'q': q, 'rate': rate, 'it': it, 'skip': skip, 'np': n + it, 'as_int': q % 2}
                        if q > 1:
                            yield {'lab': list(lab), 'q': q, 'rate': rate, 'it': it, 'skip': skip, 'np': n + it, 'as_int': q % 2, 'loose': 1}
    r = rng_of(seed, 21)
    for _ in range(10000 if tier == 'thorough' else 800):
        n = r.randint(1, 12)
        yield {'lab': [r.randint(0, 1) for _ in range(n)], 'q': r.randint(1, 5), 'rate': r.choice([0, 1, r.random(), r.random()]), 'it': r.randint(0, 4),
               'skip': r.randint(0, 4), 'np': r.randint(0, 10**6), 'as_int': r.randint(0, 1), 'loose': r.randint(0, 1)}


def check(case):
    from aideme.explore import LabeledSet
    from aideme.utils.noise import random_noise_injector
    lab, q, rate, it, skip = case['lab'], case['q'], case['rate'], case['it'], case['skip']
    n = len(lab)
    part = [[1] * q if l else [int((i + k) % 3 == 0) if k != i % q else 0 for k in range(q)] for i, l in enumerate(lab)]
    if case.get('loose') and q > 1:      # final labels that are not the conjunction of the partial ones
        part = [[int((i + k + l) % 2 == 0) for k in range(q)] for i, l in enumerate(lab)]
    ids = [(7 * i + 3) % 101 for i in range(n)]
    dt = int if case['as_int'] else float
    ls = LabeledSet(np.array(lab, dtype=dt), np.array(part, dtype=dt) if q > 1 else None, np.array(ids))
    np.random.seed(case['np'])
    f = random_noise_injector(rate, skip)
    got = f(it, ls)
    req(ls.labels.tolist() == lab and ls.partial.tolist() == part and ls.index.tolist() == ids, 'the given labeled set was modified')
    req(got.index.tolist() == ids, 'identifiers %s instead of %s', got.index.tolist(), ids)
    g, gp = got.labels.tolist(), got.partial.tolist()
    req(len(g) == n and np.array(gp).shape == (n, q), 'sizes')
    for i in range(n):
        req(g[i] in (lab[i], 1 - lab[i]), 'label %s', g[i])
        if rate == 0 or it <= skip:
            req(g[i] == lab[i], 'flip at rate %s in iteration %s with %s skipped', rate, it, skip)
        elif rate == 1:
            req(g[i] != lab[i], 'no flip at rate one in iteration %s with %s skipped', it, skip)
        if g[i] == lab[i]:
            req(gp[i] == part[i], 'partial labels of an unflipped point: %s instead of %s', gp[i], part[i])
        elif g[i] == 1:
            req(gp[i] == [1] * q, 'partial labels of a point turned positive: %s', gp[i])
        else:
            req(any(gp[i] == part[i][:k] + [0] + part[i][k + 1:] for k in range(q)), 'partial labels of a point turned negative: %s', gp[i])
    if got is not ls:
        got.labels[...] = 5
        got.partial[...] = 5
        req(ls.labels.tolist() == lab and ls.partial.tolist() == part, 'noisy labels share storage with the given ones')
    for bad in ((-.01, 0), (1.01, 0), (.5, -1), (.5, 1.5)):
        req(raises(ValueError, random_noise_injector, *bad), 'parameters %s accepted', bad)
    return True
