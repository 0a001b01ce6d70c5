"""Categorical polytope (C10)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('all histories of up to 4 labeled categories among 3, cut into batches in every way, with resets, and longer random ones; '
        'non-trivial: at least one update')


def cases(seed, tier):
    for n in (1, 2, 3, 4):
        for cats in itertools.product(range(3), repeat=n):
            for labs in itertools.product((0., 1.), repeat=n):
                for cut in (0, 1, 2) if n > 1 else (0,):
                    ops = [['u', list(cats), list(labs)]] if cut == 0 else (
                        [['u', [a], [b]] for a, b in zip(cats, labs)] if cut == 1 else
                        [['u', list(cats[:1]), list(labs[:1])], ['u', list(cats[1:]), list(labs[1:])]])
                    yield {'k': 3, 'ops': ops}
    for k in (300, 2000):       # many categories
        yield {'k': k, 'ops': [['u', [1, k - 2], [1., 0.]], ['u', [2, 257, k - 1], [0., 1., 1.]]]}
    r = rng_of(seed, 10)
    for _ in range(20000 if tier == 'thorough' else 1500):
        k, ops = r.randint(1, 7), []
        for _ in range(r.randint(1, 5)):
            if r.random() < .15:
                ops.append(['c'])
            else:
                m = r.randint(1, 4)
                cs = [r.randrange(k) for _ in range(m)]
                # mostly consistent labels
                ops.append(['u', cs, [float((c % 2 == 0) ^ (r.random() < .07)) for c in cs]])
        yield {'k': k, 'ops': ops}


def check(case):
    from aideme.active_learning.dsm.polytope import CategoricalPolytope
    k = case['k']
    eye = np.eye(k)
    p = CategoricalPolytope()
    pos, neg, valid, did = set(), set(), True, False

    def right(what):
        req(bool(p.is_valid) == valid, '%s: is_valid %s, expected %s', what, p.is_valid, valid)
        ans = np.asarray(p.predict(eye.copy()))
        req(ans.shape == (k,), '%s: shape %s', what, ans.shape)
        exp = [.5 if not valid else (1. if c in pos else (0. if c in neg else .5)) for c in range(k)]
        req(list(ans) == exp, '%s: answers %s, expected %s', what, list(ans), exp)
        rev = list(np.asarray(p.predict(eye[::-1].copy())))
        req(rev == exp[::-1], '%s: answers depend on the order of the rows: %s', what, rev)
        if k > 1:
            req(list(np.asarray(p.predict(eye[[1]]))) == exp[1:2], '%s: single row', what)
    right('new')
    for op in case['ops']:
        if op[0] == 'c':
            p.clear()
            pos, neg, valid = set(), set(), True
            right('reset')
            continue
        X, y = eye[op[1]], np.array(op[2])
        if not valid:
            req(raises(RuntimeError, p.update, X, y), 'an invalid polytope accepted an update')
            continue
        X0, y0 = X.copy(), y.copy()
        r = p.update(X, y)
        did = True
        req(np.array_equal(X, X0) and np.array_equal(y, y0), 'update modified its arguments')
        for c, l in zip(op[1], op[2]):
            (pos if l == 1 else neg).add(c)
        valid = not (pos & neg)
        req(bool(r) == valid, 'update returned %s, expected %s', r, valid)
        right('after %s' % (op,))
    return did
