"""Exploration manager histories against a reference state machine (C04)."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('histories of next/update/reset on a small dataset with and without sampler: every history of up to 4 steps, then random '
        'ones; non-trivial: at least one update')


def cases(seed, tier):
    steps = [['N'], ['U', [0]], ['U', [1]], ['U', [1, 0]], ['C'], ['U', [1, 1]]]
    for sampler in (True, False):
        for k in range(1, 5 if tier == 'thorough' else 4):
            for h in itertools.product(steps, repeat=k):
                yield {'sampler': sampler, 'n': 4, 'sub': None, 'ops': list(h)}
    r = rng_of(seed, 4)
    for n in (3, 25, 60):       # inferred points, and one long run of labels of one class after the first two
        for one in (0, 1):
            yield {'sampler': True, 'n': n, 'sub': None, 'ops': [['I', 1], ['N'], ['I', n], ['N'], ['U', [one]], ['N'], ['U', [1 - one]], ['N']] +
                   [x for _ in range(n // 2 + 2) for x in (['U', [one]], ['N'])] + [['U', [1 - one, one]], ['N'], ['C'], ['N']]}
            yield {'sampler': False, 'n': n, 'sub': 2, 'ops': [['U', [one]], ['N'], ['I', n], ['N']] + [['U', [one] * 3], ['N']] * (n // 3 + 1)}
    for n in (1, 2, 4):         # points labeled in the dataset itself before (or between) the iterations
        for lab in ([1] * n, [0] + [1] * (n - 1), [1, 0][:n]):
            yield {'sampler': n == 2, 'n': n, 'sub': None, 'ops': [['N'], ['D', lab], ['N'], ['N'], ['C'], ['N'], ['U', [1]], ['N'], ['D', lab], ['N']]}
    for _ in range(6000 if tier == 'thorough' else 700):
        ops = [r.choice([['N'], ['C'] if r.random() < .3 else ['I', r.randint(1, 3)], ['U', [r.randint(0, 1) for _ in range(r.randint(0, 3))]]])
               for _ in range(r.randint(1, 10))]
        yield {'sampler': r.random() < .6, 'n': r.randint(1, 9), 'sub': r.choice([None, 1, 3, 50]), 'ops': ops}


def check(case):
    from aideme.explore import ExplorationManager, PartitionedDataset, LabeledSet
    from aideme.explore.manager import Phase
    log = []
    n = case['n']
    X = np.array([[10. * i, 1.] for i in range(n)])
    data = PartitionedDataset(X.copy())

    class Learner:
        def fit_data(self, d):
            log.append(('fit', len(d.training_set()[1]), list(d.training_set()[1])))

        def next_points_to_label(self, d, subsample=None):
            log.append(('next', subsample))
            return d.from_index([int(d.unlabeled.index[0])])

        def clear(self):
            log.append(('clear',))

        def predict(self, X):
            return np.zeros(len(X))

    def sampler(d):
        log.append(('sampler',))
        return [int(d.unlabeled.index[-1])]
    m = ExplorationManager(data, Learner(), subsampling=case['sub'], initial_sampler=sampler if case['sampler'] else None)
    del log[:]
    lab, it, upd, inf = {}, 0, False, set()

    def explore():
        return not case['sampler'] or (1 in lab.values() and 0 in lab.values())

    def state(what):
        req(m.iters == it, '%s: %s iterations, expected %s', what, m.iters, it)
        req(bool(m.is_exploration_phase) == explore() and bool(m.is_initial_sampling_phase) != explore(), '%s: phase', what)
        req(m.phase == (Phase.EXPLORE if explore() else Phase.INITIAL), '%s: phase name', what)
        req(data.labeled_size == len(lab) and data.unlabeled_size == n - len(lab), '%s: sizes', what)
        got = {int(i) for i in data.inferred.index} if data.inferred_size else set()
        req(got == inf, '%s: inferred points %s, expected %s', what, got, inf)
    state('start')
    for k, op in enumerate(case['ops']):
        what = 'step %d %s' % (k, op)
        del log[:]
        if op[0] == 'N':
            p = m.get_next_to_label()
            if len(lab) == n:
                req(p is None and not log, '%s: a point was proposed although none is left', what)
            else:
                un = [int(i) for i in data.unlabeled.index]
                if explore():
                    req([x[0] for x in log] == ['next'], '%s: %s chose the point in the exploration phase', what, log)
                    req(log[0][1] == case['sub'], '%s: sample size %s', what, log[0][1])
                    req([int(i) for i in p.index] == [un[0]], '%s: not the point chosen by the model', what)
                else:
                    req([x[0] for x in log] == ['sampler'], '%s: %s chose the point in the initial phase', what, log)
                    req([int(i) for i in p.index] == [un[-1]], '%s: not the point chosen by the sampler', what)
                req(np.array_equal(p.data, X[p.index]), '%s: wrong row', what)
        elif op[0] == 'I':
            un = [int(i) for i in data.unknown.index][:op[1]] if data.unknown_size else []
            if un:
                data.move_to_inferred(un)
                inf |= set(un)
        elif op[0] == 'D':
            free = [i for i in range(n) if i not in lab][:len(op[1])]
            if free:
                data.move_to_labeled(LabeledSet(op[1][:len(free)], None, free))
                lab.update(zip(free, op[1]))
                inf -= set(free)
            req(not log, '%s: labeling in the dataset called %s', what, log)
        elif op[0] == 'U':
            free = [i for i in range(n) if i not in lab][:len(op[1])]
            ls = LabeledSet(op[1][:len(free)], None, free)
            for i, l in zip(free, op[1]):
                lab[i] = l
                inf.discard(i)
            m.update(ls)
            it += 1
            upd = True
            want = 1 if explore() else 0
            fits = [x for x in log if x[0] == 'fit']
            req(len(fits) == want, '%s: the model was fitted %d times, expected %d', what, len(fits), want)
            if fits:
                req(fits[0][1] == len(lab) and sorted(fits[0][2]) == sorted(lab.values()), '%s: fitted on %s', what, fits[0])
        else:
            m.clear()
            lab, it, inf = {}, 0, set()
            req([x[0] for x in log] == ['clear'], '%s: the model was not cleared once', what)
        state(what)
    return upd
