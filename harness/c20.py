"""Metrics against direct counting (C20)."""
import itertools
import math

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = 'every pair of true and predicted labels of up to 4 points, then random larger ones; non-trivial: at least one point'
NAMES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


def cases(seed, tier):
    for n in range(1, 5):
        for y in itertools.product((0, 1), repeat=n):
            for p in itertools.product((0, 1), repeat=n):
                yield {'y': list(y), 'p': list(p), 'names': NAMES, 'prefix': ''}
    for k in range(1, 3):
        for names in itertools.permutations(NAMES, k):
            yield {'y': [0, 1, 1, 0, 1], 'p': [0, 1, 0, 1, 1], 'names': list(names), 'prefix': 'x_'}
    r = rng_of(seed, 20)
    for _ in range(10000 if tier == 'thorough' else 600):
        n = r.randint(1, 30)
        b, c = r.random(), r.random()
        yield {'y': [int(r.random() < b) for _ in range(n)], 'p': [int(r.random() < c) for _ in range(n)],
               'names': r.sample(NAMES, r.randint(0, 8)), 'prefix': r.choice(['', 'a_', 'accuracy'])}


def want(y, p):
    tp = sum(a == 1 and b == 1 for a, b in zip(y, p))
    fp = sum(a == 0 and b == 1 for a, b in zip(y, p))
    tn = sum(a == 0 and b == 0 for a, b in zip(y, p))
    fn = sum(a == 1 and b == 0 for a, b in zip(y, p))
    d = lambda a, b: a / b if b else 0.
    return {'true_positive': tp, 'false_positive': fp, 'true_negative': tn, 'false_negative': fn, 'accuracy': d(tp + tn, len(y)),
            'precision': d(tp, tp + fp), 'recall': d(tp, tp + fn), 'fscore': d(2 * tp, 2 * tp + fp + fn)}


def check(case):
    from aideme.utils.metrics import classification_metrics, training_classification_metrics, three_set_metric, prediction_entropy
    y, p = case['y'], case['p']
    n = len(y)
    X = np.arange(2. * n).reshape(n, 2)
    full = np.arange(60.).reshape(20, 3)
    train = X[::-1].copy()
    ref = want(y, p)
    asked = []

    class Learner:
        def predict(self, Z):
            asked.append(np.array(Z))
            return np.array([p[int(z[0] // 2)] for z in Z], dtype=float)

    class Data:
        data = full

        def training_set(self, get_partial=False):
            return train, np.array(y[::-1], dtype=float)
    exp = {case['prefix'] + k: ref[k] for k in case['names']}

    def compare(got, what):
        req(set(got) == set(exp), '%s: metrics %s instead of %s', what, sorted(got), sorted(exp))
        for k, v in exp.items():
            req(math.isclose(float(got[k]), v, rel_tol=1e-12), '%s: %s is %s instead of %s', what, k, got[k], v)
    f = classification_metrics(X, np.array(y, dtype=float), case['names'], case['prefix'])
    req(not asked, 'learner asked too early')
    compare(f(Data(), Learner()), 'test')
    req(len(asked) == 1 and np.array_equal(asked[0], X), 'test: points asked')
    compare(f(Data(), Learner()), 'test again')
    del asked[:]
    g = training_classification_metrics(case['names'], case['prefix'])
    compare(g(Data(), Learner()), 'training')
    req(len(asked) == 1 and np.array_equal(asked[0], train), 'training: points asked')
    for bad in (['accuracy', 'nothing'], ['f1'], ['TRUE_POSITIVE']):
        req(raises(ValueError, classification_metrics, X, np.array(y), bad) and raises(ValueError, training_classification_metrics, bad), 'unknown metric %s accepted', bad)
    # three-set metric
    ans = [(a + 2 * b + i) % 3 / 2 for i, (a, b) in enumerate(zip(y, p))]

    class Pol:
        def predict(self, Z):
            asked.append(np.array(Z))
            return np.array(ans)

    class DSM:
        polytope_model = Pol()
    req(three_set_metric(Data(), Learner()) == {}, 'three-set metric without polytope')
    if any(a > 0 for a in ans):
        del asked[:]
        t = three_set_metric(Data(), DSM())
        req(set(t) == {'tsm'} and math.isclose(t['tsm'], ans.count(1.) / (ans.count(1.) + ans.count(.5))), 'three-set metric %s for %s', t, ans)
        req(len(asked) == 1 and np.array_equal(asked[0], full), 'three-set metric: points asked')
    return True
