"""Labeled sets against a reference list of entries."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('labeled sets of up to 4 entries with distinct identifiers, every selection of up to 3 identifiers (also unknown and '
        'repeated ones) and every pair to concatenate, then random larger ones; non-trivial: at least one entry')


def entry(i, q, salt):
    return [(i * 7 + salt) % 2, [(i + k + salt) % 3 for k in range(q)]]


def cases(seed, tier):
    for n in range(4):
        for q in (0, 1, 2):
            for ids in ([5, 2, 9, 0][:n], None, [-3, 10, 4, 2][:n]):
                real = ids if ids is not None else list(range(n))
                for k in range(4):
                    for sel in itertools.product(real + [77], repeat=k):
                        yield {'n': n, 'q': q, 'ids': ids, 'sel': list(sel), 'other': None}
                for m in range(3):
                    for q2 in (q, q + 1):
                        yield {'n': n, 'q': q, 'ids': ids, 'sel': real[::-1], 'other': [[100, 101, 102][:m], q2]}
    r = rng_of(seed, 3)
    for _ in range(20000 if tier == 'thorough' else 1500):
        n = r.randint(0, 12)
        ids = r.sample(range(-20, 60), n) if r.random() < .8 else None
        real = ids if ids is not None else list(range(n))
        sel = [r.choice(real) if real and r.random() < .97 else 200 for _ in range(r.randint(0, 6))]
        m, q = r.randint(0, 5), r.randint(0, 3)
        yield {'n': n, 'q': q, 'ids': ids, 'sel': sel, 'other': [r.sample(range(100, 130), m), q if r.random() < .8 else q + 1]}


def content(ls):
    return [[int(i), l.item() if hasattr(l, 'item') else l, list(np.ravel(p))] for i, l, p in zip(ls.index, ls.labels, ls.partial)]


def check(case):
    from aideme.explore import LabeledSet
    n, q, ids = case['n'], case['q'], case['ids']
    real = ids if ids is not None else list(range(n))
    ref = [[i] + entry(i, q or 1, 0) for i in real]
    if q == 0:
        ref = [[i, l, [l]] for i, l, _ in ref]
    labels = [x[1] for x in ref]
    partial = None if q == 0 else np.array([x[2] for x in ref]).reshape(n, q)
    ls = LabeledSet(labels, partial, ids)
    req(content(ls) == ref, 'construction: %s instead of %s', content(ls), ref)
    req(len(ls) == n and ls.num_partitions == (q or 1), 'sizes')
    has = 1 in labels and 0 in labels
    req(bool(ls.has_positive_and_negative_labels()) == has, 'has both labels: %s for %s', not has, labels)
    req(raises(ValueError, LabeledSet, labels + [1], partial if q else np.zeros((n, 1)), ids), 'wrong size of partial labels accepted')
    if ids is not None:
        req(raises(ValueError, LabeledSet, labels, partial, ids + [1000]), 'wrong number of identifiers accepted')
        req(raises(ValueError, LabeledSet, labels, np.zeros(n), ids), 'one-dimensional partial labels accepted')
    d = ls.asdict()
    req(list(d['labels']) == labels and list(d['labeled_indexes']) == real, 'asdict')
    sel = case['sel']
    try:
        got = ls.get_index(sel)
    except KeyError:
        req(any(s not in real for s in sel), 'selection %s of known identifiers %s rejected', sel, real)
        got = None
    if got is not None:
        req(all(s in real for s in sel), 'unknown identifier in %s accepted', sel)
        want = [ref[real.index(s)] for s in sel]
        if sel:
            req(content(got) == want, 'selection %s gives %s instead of %s', sel, content(got), want)
        else:
            req(len(got) == 0, 'empty selection')
    req(content(ls) == ref, 'selection modified the set')
    if case['other'] is not None:
        oids, q2 = case['other']
        oref = [[i] + entry(i, q2 or 1, 1) for i in oids]
        if q2 == 0:
            oref = [[i, l, [l]] for i, l, _ in oref]
        o = LabeledSet([x[1] for x in oref], None if q2 == 0 else np.array([x[2] for x in oref]).reshape(len(oref), q2), oids)
        for a, b, ra, rb in ((ls, o, ref, oref), (o, ls, oref, ref)):
            if len(ra) and len(rb) and (q or 1) != (q2 or 1):
                req(raises(ValueError, a.concat, b), 'different numbers of partial labels accepted')
                continue
            c = a.concat(b)
            req(content(c) == ra + rb, 'concatenation gives %s instead of %s', content(c), ra + rb)
            req(content(a) == ra and content(b) == rb, 'concatenation modified its arguments')
            for x in ra + rb:
                req(content(c.get_index([x[0]])) == [x], 'lookup of %s in the concatenation', x[0])
    if n:
        new = np.array([[j * 2, j * 2 + 1] for j in range(n)])
        ls.set_partial_labels(new)
        req(content(ls) == [[x[0], x[1], list(new[j])] for j, x in enumerate(ref)], 'replacing the partial labels')
        req(raises(ValueError, ls.set_partial_labels, new[1:]), 'wrong size accepted')
        req(content(ls.get_index([real[-1]]))[0][2] == list(new[-1]), 'selection after replacing the partial labels')
        ls.set_partial_labels(None)
        req(content(ls) == [[x[0], x[1], [x[1]]] for x in ref], 'default partial labels')
    return n > 0
