"""Simulated exploration runs (C06)."""
import itertools
import random

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('complete runs on datasets of up to 7 points with sampler, noise, subsampling and a stateful learner; a run of a repeat '
        'is compared with the same seed run alone; non-trivial: at least one iteration')


def cases(seed, tier):
    for n in (2, 3):
        for samp, noise, copy, rep in itertools.product([0, 1], [0, 1], [True, False], [1, 2, 3]):
            yield {'n': n, 'samp': samp, 'noise': noise, 'copy': copy, 'rep': rep, 'seeds': 'list', 'gen': True, 'ids': False, 's': 3}
            yield {'n': n, 'samp': samp, 'noise': noise, 'copy': copy, 'rep': rep, 'seeds': 'none', 'gen': False, 'ids': True, 's': 4}
    r = rng_of(seed, 6)
    for _ in range(1500 if tier == 'thorough' else 120):
        yield {'n': r.randint(2, 7), 'samp': r.randint(0, 1), 'noise': r.randint(0, 1), 'copy': r.random() < .6, 'rep': r.randint(1, 4),
               'seeds': r.choice(['list', 'list', 'none', 'int', 'short', 'long']), 'gen': r.random() < .5, 'ids': r.random() < .6,
               's': r.randint(0, 10 ** 6)}


def check(case):
    from aideme.explore import PoolBasedExploration, LabeledSet
    n = case['n']
    g = np.random.RandomState(case['s'])
    X0 = g.randn(n, 2)
    ids = g.permutation(50)[:n] if case['ids'] else np.arange(n)
    y = np.array([1, 0] + list(g.randint(0, 2, n - 2)))
    part = np.column_stack([y, 1 - y])
    rep = case['rep']
    seeds = {'list': [0 if case['s'] % 2 and q == rep - 1 else int(s) for q, s in enumerate(g.randint(0, 1000, rep))], 'none': None, 'int': 7, 'short': [1] * max(rep - 1, 0),
             'long': [1] * (rep + 1)}[case['seeds']]
    expect_error = case['seeds'] in ('short', 'long') or case['seeds'] == 'int' and rep != 1

    class Learner:
        def __init__(self):
            self.state, self.cleared = 0, 0

        def clear(self):
            self.state = 0

        def fit_data(self, d):
            self.state += 1

        def next_points_to_label(self, d, subsample=None):
            k = d.unlabeled_size if subsample is None else min(subsample, d.unlabeled_size)
            idx = d.unlabeled.index
            return d.from_index([int(np.sort(idx)[(self.state * 3 + np.random.randint(k) + random.randrange(k)) % len(idx)])])

        def predict(self, X):
            return np.zeros(len(X))

    def sampler(d):
        return [int(ids[random.randrange(n)]) if False else int(np.random.choice(d.unlabeled.index))]

    def noise(it, ls):
        return LabeledSet(1 - ls.labels, 1 - ls.partial, ls.index)

    def explorer():
        return PoolBasedExploration(initial_sampler=sampler if case['samp'] else None, subsampling=2,
                                    callback=lambda d, al: {'fits': al.state, 'left': d.unlabeled_size, 'only%d' % (d.labeled_size % 2): 1},
                                    noise_injector=noise if case['noise'] else None)

    def run(rep, seeds, gen):
        X = X0.copy()
        ls = LabeledSet(y.copy(), part.copy(), ids.copy())
        i0 = ls.index.copy()
        out = explorer().run(X, ls, Learner(), repeat=rep, seeds=seeds, copy=case['copy'], return_generator=gen)
        res = []
        for r in out:
            res.append([dict(m) for m in list(r)])
        if case['copy']:
            req(np.array_equal(X, X0), 'the data was modified although copying is on')
        req(np.array_equal(ls.index, i0) and np.array_equal(ls.labels, y) and np.array_equal(ls.partial, part), 'the labels were modified')
        return res
    bad = (0, -1, 1.5, 2, 1)[case['s'] % 5]
    for opt in ('subsampling', 'callback_skip'):
        req(raises((ValueError, TypeError), PoolBasedExploration, **{opt: bad}) == (bad not in (1, 2)), '%s %s', opt, bad)
    if expect_error:
        req(raises(ValueError, lambda: run(rep, seeds, case['gen'])), '%s seeds for %d runs accepted', seeds, rep)
        return False
    res = run(rep, seeds, case['gen'])
    req(len(res) == rep, '%d runs instead of %d', len(res), rep)
    pos = {int(i): k for k, i in enumerate(ids)}
    timing = {'iter_time', 'fit_time', 'get_next_time', 'callback_time'}
    for r in res:
        seen, labels = [], []
        for it, m in enumerate(r):
            req(len(m['labeled_indexes']) == len(m['labels']) == len(m['partial_labels']) >= 1, 'iteration %d: sizes', it)
            for i, l, p in zip(m['labeled_indexes'], m['labels'], m['partial_labels']):
                k = pos[int(i)]
                req(l == y[k] and list(p) == list(part[k]), 'iteration %d: point %s got label %s %s', it, i, l, p)
                seen.append(int(i))
            expl = not case['samp'] or (1 in labels and 0 in labels)
            req(m['phase'] == ('exploration' if expl else 'initial_sampling'), 'iteration %d: phase %s', it, m['phase'])
            if case['noise'] and expl:
                req(m['noisy_labels'] == [1 - l for l in m['labels']], 'iteration %d: noisy labels', it)
                labels += m['noisy_labels']
            else:
                labels += m['labels']
            keys = set(m) - timing
            want = {'phase', 'labels', 'partial_labels', 'labeled_indexes', 'fits', 'left', 'only%d' % (len(seen) % 2)}
            if case['noise'] and expl:
                want |= {'noisy_labels', 'noisy_partial_labels'}
            req(keys == want, 'iteration %d reports %s, expected %s', it, sorted(keys), sorted(want))
            req(m['left'] == n - len(seen), 'iteration %d: %s points left', it, m['left'])
        req(sorted(seen) == sorted(pos), 'a run labeled %s of %s', seen, sorted(pos))
    if case['seeds'] == 'list':
        strip = lambda r: [{k: v for k, v in m.items() if k not in timing} for m in r]
        for s, r in zip(seeds, res):
            np.random.seed(1000 + case['s'])
            random.seed(1000 + case['s'])
            alone = run(1, [s], True)[0]
            req(strip(alone) == strip(r), 'a run depends on the earlier runs of the same call')
    return True
