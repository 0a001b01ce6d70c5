"""Convergence and callback schedule (C05)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('every combination of up to three criteria answers, container kinds, skips and iteration counts, thresholds around the '
        'metric; non-trivial: criteria or callbacks configured')


def cases(seed, tier):
    for k in range(4):
        for ans in itertools.product([False, True], repeat=k):
            for kind in ('list', 'tuple', 'single', 'none'):
                if kind == 'single' and k != 1 or kind == 'none' and k != 0:
                    continue
                for left in (0, 1, 2):
                    for skip in (1, 2, 3):
                        yield {'k': 'mgr', 'ans': list(ans), 'kind': kind, 'left': left, 'skip': skip}
    vals = [0, 1, 2, 5, 10]
    for mx in vals + [None, 'inf']:
        for it in range(13):
            yield {'k': 'iter', 'max': mx, 'it': it}
    for th in (0, .5, .9, 1.):
        for v in (None, 0, .4999, .5, .50001, .9, 1., 2):
            yield {'k': 'metric', 'th': th, 'v': v}
    r = rng_of(seed, 5)
    for _ in range(3000 if tier == 'thorough' else 300):
        k = r.randint(0, 6)
        yield {'k': 'mgr', 'ans': [r.random() < .2 for _ in range(k)], 'kind': 'list', 'left': r.randint(0, 3), 'skip': r.randint(1, 6)}


def check(case):
    from aideme.explore import ExplorationManager, PartitionedDataset, LabeledSet
    from aideme.utils import convergence as cv
    if case['k'] == 'iter':
        if case['max'] == 'inf':
            mx = float('inf')
        elif case['max'] is None:
            return False
        else:
            mx = case['max']
        class M:
            iters = case['it']
        req(bool(cv.max_iter_reached(mx)(M(), {})) == (case['it'] > mx), 'max_iter_reached(%s) after %s iterations', mx, case['it'])
        return True
    if case['k'] == 'metric':
        d = {'other': 5} if case['v'] is None else {'m': case['v'], 'other': 5}
        got = bool(cv.metric_reached_threshold('m', case['th'])(None, d))
        req(got == (case['v'] is not None and case['v'] >= case['th']), 'threshold %s, metric %s: %s', case['th'], case['v'], got)
        return True
    n = 4
    asked = []
    def crit(j):
        def c(m, metrics):
            asked.append(m)
            return case['ans'][j]
        return c
    cs = [crit(j) for j in range(len(case['ans']))]
    arg = {'list': cs, 'tuple': tuple(cs), 'single': cs[0] if cs else None, 'none': None}[case['kind']]
    before = list(cs)

    class Learner:
        def fit_data(self, d): pass
        def clear(self): pass
    calls = []
    def cb(j, out):
        def f(d, al):
            calls.append((j, d, al))
            return dict(out) if out is not None else None
        return f
    outs = [{'a': 1, 'b': 2}, None, {'b': 3}, {}]
    managers = []
    for _ in range(2):
        al = Learner()
        data = PartitionedDataset(np.arange(2. * n).reshape(n, 2))
        managers.append((ExplorationManager(data, al, callback=[cb(j, o) for j, o in enumerate(outs)], callback_skip=case['skip'],
                                            convergence_criteria=arg), data, al))
    if case['kind'] == 'list':
        req(arg == before, "the caller's list of criteria was changed to %d entries", len(arg))
    for m, data, al in managers:
        seq = [0, 1] if case['left'] == 2 else [0, 1, 2] if case['left'] == 1 else [0, 1, 2, 3]
        for it, i in enumerate(seq, 1):
            m.update(LabeledSet([1], None, [i]))
            want = any(case['ans']) or data.unlabeled_size == 0
            req(bool(m.converged()) == want, 'converged() is %s: answers %s, %d points left', not want, case['ans'], data.unlabeled_size)
            del calls[:]
            got = m.get_callback_metrics()
            due = (it - 1) % case['skip'] == 0 or want
            if due:
                req(got == {'a': 1, 'b': 3}, 'iteration %d (skip %d): callback metrics %s', it, case['skip'], got)
                req([c[0] for c in calls] == [0, 1, 2, 3] and all(c[1] is data and c[2] is al for c in calls), 'callbacks asked: %s', calls)
            else:
                req(got == {} and not calls, 'iteration %d (skip %d): callbacks computed', it, case['skip'])
        req(all(x in [mm for mm, _, _ in managers] for x in asked), 'criteria asked about something else')
        del asked[:]
    return True
