"""Command line session against a reference reading of the answers (C26)."""
import builtins
import contextlib
import io
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('every line of up to 5 characters out of 0, 1, 2, blank and letters as an answer for 1 to 3 points, then a correct one; whole '
        'sessions with random answers; non-trivial: at least one answer')
ALPHA = '01 x2'


def cases(seed, tier):
    for k in range(5 if tier == 'quick' else 6):
        for s in itertools.product(ALPHA, repeat=k):
            yield {'lines': [''.join(s)], 'n': 1 + (k % 3), 'm': None}
    for s in ('01', '0 1', '1 0', ' 0  1 ', '0\t1', '1 1 ', '10 1', '1,0', '0 -1', '１ 0', '0 1\n', '1.0 0', '0 1 ', '²  1', 'y', 'n', 'True False', '0  1', '٠ 1', '+1 0', '\x1c0 1', '0\u00a01'):
        yield {'lines': [s], 'n': 2, 'm': None}
    r = rng_of(seed, 26)
    for _ in range(6000 if tier == 'thorough' else 500):
        n = r.randint(1, 4)
        yield {'lines': [''.join(r.choice('0011  x') for _ in range(r.randint(0, 7))) for _ in range(r.randint(0, 5))], 'n': n, 'm': None}
    for _ in range(3000 if tier == 'thorough' else 300):
        yield {'m': r.randint(1, 7), 'ans': [r.choice(['y', 'y', 'y', 'n', 'Y', '', 'yes', 'no']) for _ in range(12)],
               'labs': [r.choice(['0', '1', '2', '', '0 1', '1 ', ' 0']) for _ in range(25)], 'stop': r.choice([None, None, 0, 1, 2, 4]), 'n': 0, 'lines': []}


def parse(s, n):
    """the labels if exactly one 0 or 1 was typed for each point (pieces between blanks), else None"""
    ps = [p for p in s.split(' ') if p != '']
    if len(ps) != n or any(p not in ('0', '1') for p in ps):
        return None
    return [int(p) for p in ps]


@contextlib.contextmanager
def answers(fn):
    old = builtins.input
    builtins.input = fn
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        builtins.input = old


def check(case):
    from aideme.explore.command_line_explore import CommandLineExploration
    from aideme.active_learning.active_learner import ActiveLearner
    if case['m'] is None:
        n = case['n']
        good = ' '.join(str(i % 2) for i in range(n))
        lines = case['lines'] + [good]
        pos = [0]

        def inp(prompt=''):
            pos[0] += 1
            if pos[0] > len(lines):
                raise Fail('asked again after the well-formed answer %r' % lines[-1])
            return lines[pos[0] - 1]
        k = next(i for i, s in enumerate(lines) if parse(s, n) is not None)
        ids, pts = np.array([(5 * i + 2) % 17 for i in range(n)]), np.arange(2. * n).reshape(n, 2)
        c = CommandLineExploration()
        if not hasattr(c, '_label'):
            return False
        with answers(inp):
            got = c._label(ids, pts)
        req(pos[0] == k + 1, 'stored after %d answers of %r, the first well-formed one is number %d', pos[0], lines, k + 1)
        req(got.labels.tolist() == parse(lines[k], n), 'stored %s for %r', got.labels.tolist(), lines[k])
        req(got.index.tolist() == ids.tolist(), 'identifiers')
        return True
    # a whole session
    m = case['m']
    X = np.array([[i, 2. * i] for i in range(m)])
    ans, labs = list(case['ans']), list(case['labs'])
    given, seen, log = {}, [], []

    class T(ActiveLearner):
        def fit(self, X, y):
            log.append(('fit', X.copy(), np.array(y)))

        def predict(self, X): return np.zeros(len(X))
        def clear(self): pass
        def rank(self, X): return X[:, 0]

    class Stop(Exception):
        pass
    state = {'stop': False}

    def inp(prompt=''):
        if 'y/n' in prompt:
            if not ans:
                raise Stop()
            a = ans.pop(0)
            seen.append(('go', a))
            return a
        if not labs:
            raise Stop()
        a = labs.pop(0)
        seen.append(('lab', a))
        return a
    crit = None if case['stop'] is None else (lambda manager, metrics: manager.iters >= case['stop'])
    c = CommandLineExploration(convergence_criteria=crit)
    X0 = X.copy()
    ended = True
    with answers(inp):
        try:
            c.run(X, T())
        except Stop:
            ended = False
    req(np.array_equal(np.sort(X, axis=0), X0), 'data')
    done, want, i = 0, [], 0
    over = False
    # replay of the protocol on the recorded answers
    def converged():
        return done == m or (case['stop'] is not None and done >= case['stop'])
    while not converged():
        while i < len(seen) and seen[i][0] == 'go' and seen[i][1] not in ('y', 'n'):
            i += 1
        if i >= len(seen):
            break
        req(seen[i][0] == 'go', 'labels asked without permission: %s', seen)
        i += 1
        if seen[i - 1][1] == 'n':
            over = True
            break
        while i < len(seen) and seen[i][0] == 'lab' and parse(seen[i][1], 1) is None:
            i += 1
        if i >= len(seen):
            break
        req(seen[i][0] == 'lab', 'went on without a well-formed answer: %s', seen)
        want.append(parse(seen[i][1], 1)[0])
        i += 1
        done += 1
    req(i == len(seen), 'went on after the end: %s', seen)
    req(ended == (over or converged()), 'ended: %s, expected %s after %s', ended, over or converged(), seen)
    fits = [x for x in log if x[0] == 'fit']
    req(len(fits) == done, '%d fits for %d stored batches', len(fits), done)
    if fits:
        req(fits[-1][1][:, 0].tolist() == list(range(done)) and fits[-1][2].tolist() == want, 'stored labels %s for points %s, typed %s', fits[-1][2].tolist(), fits[-1][1][:, 0].tolist(), want)
    return True
