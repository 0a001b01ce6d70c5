"""Histories of a partitioned dataset against a reference model (C01, C02)."""
import itertools

import numpy as np

from harness.base import Fail, Skip, req, rng_of

IDS = [[5, 2, 9], None, [7, 3]]


def cases(seed, tier, labels):
    # exhaustive: 3 points, every history of two batches over every subset, three for the shorter alphabet
    n = 3
    for idset in (0, 1):
        ids = IDS[idset] or list(range(n))
        subs = [list(s) for k in (1, 2, 3) for s in itertools.permutations(ids, k)]
        full = [[op, s] for op in 'LIU' for s in subs] + [['F'], ['C'], ['S']]
        short = [[op, [i]] for op in 'LIU' for i in ids] + [['F'], ['C'], ['L', ids[::-1]]]
        for depth in (1, 2):
            for h in itertools.product(full, repeat=depth):
                yield {'n': n, 'ids': IDS[idset], 'ops': list(h), 'copy': True}
        for depth in ((3,) if idset else (3, 4) if tier == 'thorough' else (3,)):
            for h in itertools.product(short, repeat=depth):
                yield {'n': n, 'ids': IDS[idset], 'ops': list(h), 'copy': True}
    r = rng_of(seed, 11)
    for _ in range(60000 if tier == 'thorough' else 2500):
        n = r.randint(1, 9)
        ids = r.sample(range(-50, 100), n) if r.random() < .7 else None
        real = ids or list(range(n))
        ops, part = [], {i: 'U' for i in real}
        for _ in range(r.randint(1, 12)):
            k = r.random()
            if k < .08:
                ops.append(['F'])
                part = {i: ('U' if p == 'I' else p) for i, p in part.items()}
            elif k < .1:
                ops.append(['C'])
                part = {i: 'U' for i in real}
            elif k < .15:
                ops.append(['S'])
            else:
                op = r.choice('LIU')
                # mostly legal batches
                pool = [i for i in real if part[i] != op] if r.random() < .9 else real
                b = r.sample(pool, r.randint(0, min(4, len(pool))))
                if r.random() < .04 and b:
                    b = b + [b[0]]
                ops.append([op, b])
                for i in b:
                    part[i] = op
        yield {'n': n, 'ids': ids, 'ops': ops, 'copy': r.random() < .8}


RULE = ('histories of move_to_labeled / move_to_inferred / move_to_unknown / flush / clear / set_partial_labels on a '
        'partitioned dataset: exhaustive for 3 points (all batches twice, single points three times), then random '
        '(seeded); non-trivial: at least one batch was accepted')


def check(case, labels):
    from aideme.explore import PartitionedDataset, LabeledSet
    n = case['n']
    ids = case['ids']
    real = list(ids) if ids is not None else list(range(n))
    data = np.array([[100. * i + 1, 100. * i + 2] for i in range(n)])
    row = {k: data[i].copy() for i, k in enumerate(real)}
    idx = np.array(ids) if ids is not None else None
    d0, i0 = data.copy(), None if idx is None else idx.copy()
    ds = PartitionedDataset(data, idx, copy=case['copy'])
    if case['copy']:
        req(np.array_equal(data, d0) and (idx is None or np.array_equal(idx, i0)), 'construction modified the given arrays')
    part = {k: 'U' for k in real}
    lab, plab, last = {}, {}, []
    serial = [0]
    ok = False

    def verify(what, with_labels=True):
        got = {'L': ds.labeled, 'I': ds.inferred, 'U': ds.unknown}
        allids = []
        for p, v in got.items():
            g = [int(i) for i in v.index]
            allids += g
            if not labels:
                req(sorted(g) == sorted(k for k in real if part[k] == p),
                    '%s: partition %s holds %s, expected %s', what, p, sorted(g), sorted(k for k in real if part[k] == p))
                for i, k in enumerate(g):
                    req(np.array_equal(v.data[i], row[k]), '%s: identifier %s is paired with row %s', what, k, v.data[i])
        if not labels:
            req(sorted(allids) == sorted(real), '%s: identifiers %s', what, allids)
            un = [int(i) for i in ds.unlabeled.index]
            req(sorted(un) == sorted(k for k in real if part[k] != 'L'), '%s: unlabeled %s', what, un)
            sizes = (ds.labeled_size, ds.inferred_size, ds.unknown_size, ds.unlabeled_size, len(ds))
            cnt = [sum(1 for k in real if part[k] == p) for p in 'LIU']
            req(sizes == (cnt[0], cnt[1], cnt[2], cnt[1] + cnt[2], n), '%s: sizes %s, expected %s', what, sizes, cnt)
            for k in real:
                g = ds.from_index([k])
                req(len(g) == 1 and int(g.index[0]) == k and np.array_equal(g.data[0], row[k]),
                    '%s: lookup of %s returned %s', what, k, g.data)
            g = ds.from_index(real[::-1])
            req([int(i) for i in g.index] == real[::-1], '%s: lookup of several', what)
            return
        if not with_labels:
            return
        for partial in (False, True):
            X, y = ds.training_set(get_partial=partial)
            req(len(X) == len(y) == len(lab), '%s: training set of %d rows and %d labels for %d labeled points', what,
                len(X), len(y), len(lab))
            for x, l in zip(X, y):
                k = next((k for k in real if np.array_equal(row[k], x)), None)
                req(k is not None and k in lab, '%s: training row %s is not labeled', what, x)
                if partial:
                    req(list(np.ravel(l)) == list(plab[k]), '%s: point %s has partial labels %s, expected %s', what, k, l, plab[k])
                else:
                    req(l == lab[k], '%s: point %s has label %s, expected %s', what, k, l, lab[k])
        ls = ds.labeled_set
        req([int(i) for i in ls.index] == [int(i) for i in ds.labeled.index], '%s: labeled set identifiers %s, rows %s', what,
            list(ls.index), list(ds.labeled.index))
        for k, l, p in zip(ls.index, ls.labels, ls.partial):
            req(int(k) in lab and l == lab[int(k)] and list(np.ravel(p)) == list(plab[int(k)]),
                '%s: labeled set gives %s label %s', what, k, l)
        if last is not None:
            X, y = ds.last_training_set()
            req(len(X) == len(last) == len(y), '%s: last training set size', what)
            for j, (k, l, p) in enumerate(last):
                req(np.array_equal(X[j], row[k]) and y[j] == l, '%s: last batch entry %d', what, j)
            X, y = ds.last_training_set(get_partial=True)
            for j, (k, l, p) in enumerate(last):
                req(np.array_equal(X[j], row[k]) and list(np.ravel(y[j])) == list(p), '%s: last batch partial %d', what, j)

        class M:
            def predict(self, X):
                return np.array([1000. + x[0] for x in X])
        pr = ds.predict_user_labels(M())
        req(sorted(int(i) for i in pr.index) == sorted(real), '%s: prediction identifiers', what)
        for k, l in zip(pr.index, pr.labels):
            k = int(k)
            exp = lab[k] if k in lab else 1000. + row[k][0]
            req(l == exp, '%s: predicted label of %s is %s, expected %s', what, k, l, exp)

    verify('after construction')
    if not labels:
        req(ds.unknown_size == n, 'construction: not everything is unknown')
        req([int(i) for i in ds.index] == sorted(real), 'construction: not sorted by identifier')
    for step, op in enumerate(case['ops']):
        what = 'after step %d %s' % (step, op)
        if op[0] == 'F':
            ds.remove_inferred()
            part = {k: ('U' if p == 'I' else p) for k, p in part.items()}
        elif op[0] == 'C':
            ds.clear()
            part = {k: 'U' for k in real}
            lab, plab, last = {}, {}, []
            if not labels:
                req([int(i) for i in ds.index] == sorted(real), '%s: not sorted by identifier', what)
        elif op[0] == 'S':
            order = [int(i) for i in ds.labeled.index]
            if len(order) == 0:
                continue
            serial[0] += 1
            new = np.array([[serial[0] * 10 + j, serial[0] * 10 + j + 5] for j in range(len(order))])
            ds.set_partial_labels(new)
            plab = {k: list(new[j]) for j, k in enumerate(order)}
            last = None
            if labels and not _raises(lambda: ds.set_partial_labels(np.zeros((len(order) + 1, 2)))):
                raise Fail('%s: partial labels of a wrong size were accepted' % what)
        else:
            b = list(op[1])
            legal = all(k in part and part[k] != op[0] for k in b) and len(set(b)) == len(b)
            serial[0] += 1
            ys = [(serial[0] * 3 + j) % 2 for j in range(len(b))]
            ps = [[serial[0] * 7 + j, j] for j in range(len(b))]
            arg = b if op[0] != 'L' else LabeledSet(ys, np.array(ps).reshape(-1, 2), b)
            fn = {'L': ds.move_to_labeled, 'I': ds.move_to_inferred, 'U': ds.move_to_unknown}[op[0]]
            try:
                fn(arg)
                moved = True
            except (ValueError, KeyError):
                moved = False
            if moved != legal:
                if labels:
                    raise Skip()
                raise Fail('%s: a batch that %s was %s' % (what, 'is legal' if legal else 'names a point already there',
                                                         'accepted' if moved else 'rejected'))
            if not moved:
                if labels:
                    return ok
                # still a partition of the same rows; which prefix was moved is not specified
                now = {}
                for p, v in (('L', ds.labeled), ('I', ds.inferred), ('U', ds.unknown)):
                    for k in v.index:
                        now[int(k)] = p
                for k in real:
                    req(now.get(k) in ((op[0], part[k]) if k in b else (part[k],)), '%s: rejected batch moved %s', what, k)
                part = now
                verify(what + ' (rejected)')
                if op[0] == 'L':
                    return ok      # a rejected labeled batch may leave points without labels: later moves unspecified
                continue
            ok = True
            for j, k in enumerate(b):
                part[k] = op[0]
                if op[0] == 'L':
                    lab[k], plab[k] = ys[j], ps[j]
                else:
                    lab.pop(k, None)
                    plab.pop(k, None)
            if op[0] == 'L':
                last = [(k, ys[j], ps[j]) for j, k in enumerate(b)]
        verify(what)
    return ok


def _raises(fn):
    try:
        fn()
    except ValueError:
        return True
    return False
