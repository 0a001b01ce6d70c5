"""Multi-set polytope (C11): answers are compared with every labeling of the items consistent with the labels given."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('all sequences of up to 3 labeled item sets over 3 items, one by one and in one batch, and random ones over up to 6 items; '
        'non-trivial: at least one update')


def cases(seed, tier):
    sets = [s for n in range(1, 4) for s in itertools.combinations(range(3), n)]
    for n in (1, 2, 3):
        for h in itertools.product(itertools.product(sets, (0, 1)), repeat=n):
            for one in (False, True) if n > 1 else (False,):
                pts = [[list(s), l] for s, l in h]
                yield {'d': 3, 'ops': [pts] if one else [[q] for q in pts]}
    for n in (20, 130, 300):    # many undecided negative points before and after the one that becomes decided
        many = [[[2, 3], 0], [[2, 3, 4], 0], [[3, 4], 0]] * n
        yield {'d': 5, 'ops': [[[[0, 1], 0]] + many, [[[0], 1]]]}
        yield {'d': 5, 'ops': [many + [[[0, 1], 0]], [[[0], 1]]]}
        yield {'d': 5, 'ops': [[[[0, 1], 0]] + many, [[[0, 1], 1]]]}
    r = rng_of(seed, 11)
    for _ in range(8000 if tier == 'thorough' else 700):
        d = r.randint(2, 6)
        truth = [r.random() < .6 for _ in range(d)]
        ops = []
        for _ in range(r.randint(1, 6)):
            b = []
            for _ in range(r.randint(1, 3)):
                s = sorted(r.sample(range(d), r.randint(1, min(d, 4))))
                l = int(all(truth[i] for i in s))
                b.append([s, 1 - l if r.random() < .03 else l])
            ops.append(b)
            if r.random() < .05:
                ops.append('c')
        yield {'d': d, 'ops': ops}


def check(case):
    from aideme.active_learning.dsm.polytope import MultiSetPolytope
    d = case['d']
    p = MultiSetPolytope()
    given, alive, did = [], True, False
    allsets = np.array(list(itertools.product((0., 1.), repeat=d)))
    labelings = np.array(list(itertools.product((False, True), repeat=d)))

    def value(lab, s):
        return all(lab[i] for i in s)

    def right(what):
        ans = np.asarray(p.predict(allsets.copy()))
        req(ans.shape == (len(allsets),), '%s: shape', what)
        req(set(ans) <= {0., .5, 1.}, '%s: answers %s', what, set(ans))
        cons = [l for l in labelings if all(value(l, s) == bool(v) for s, v in given)]
        if not alive:
            req(not p.is_valid, '%s: became valid again', what)
        if not p.is_valid:
            req(not cons, '%s: invalid although %s is consistent', what, cons[:1])
            req(all(ans == .5), '%s: an invalid polytope answers %s', what, list(ans))
            return
        for row, a in zip(allsets, ans):
            s = [i for i in range(d) if row[i]]
            if a != .5:
                for l in cons:
                    req(value(l, s) == (a == 1), '%s: set %s answered %s, but %s is consistent', what, s, a, list(l))
                for g, v in given:
                    if sorted(g) == s:
                        req(a == v, '%s: given label of %s not kept', what, s)
        pos = {i for g, v in given if v for i in g}
        for i in range(d):
            row = np.zeros((1, d))
            row[0, i] = 1
            a = p.predict(row)[0]
            if i in pos:
                req(a == 1, '%s: item %d of a positive point answered %s', what, i, a)
            if any(not v and set(g) - pos == {i} for g, v in given):
                req(a == 0, '%s: the only undecided item %d of a negative point answered %s', what, i, a)
                row[0, :] = 1
                req(p.predict(row)[0] == 0, '%s: a set with a negative item is not negative', what)
        if pos:
            row = np.array([[1. if i in pos else 0. for i in range(d)]])
            req(p.predict(row)[0] == 1, '%s: a set of positive items is not positive', what)
    right('new')
    for op in case['ops']:
        if op == 'c':
            p.clear()
            given, alive = [], True
            req(p.is_valid and all(p.predict(allsets) == .5), 'reset')
            continue
        X = np.array([[1. if i in s else 0. for i in range(d)] for s, _ in op])
        y = np.array([float(v) for _, v in op])
        if not alive:
            req(raises(RuntimeError, p.update, X, y), 'an invalid polytope accepted an update')
            continue
        X0 = X.copy()
        r = p.update(X, y)
        did = True
        req(np.array_equal(X0, X), 'update modified its arguments')
        given += [(s, v) for s, v in op]
        alive = bool(p.is_valid)
        req(bool(r) == alive, 'update returned %s', r)
        right('after %s' % (op,))
    return did


def smaller(case):
    ops = case['ops']
    for i in reversed(range(len(ops))):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
        if isinstance(ops[i], list) and len(ops[i]) > 1:
            for j in range(len(ops[i])):
                yield dict(case, ops=ops[:i] + [ops[i][:j] + ops[i][j + 1:]] + ops[i + 1:])
