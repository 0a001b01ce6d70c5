"""Subspace learners (C24) against models fed by hand; polytope learners against their polytope."""
import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('random partitions of up to four subspaces (lists, slices, overlapping columns), recording models with arbitrary answers, all '
        'connectors and losses; modes of the version space flavour; categorical and multi-set learners on random histories; '
        'non-trivial: at least one answer compared')
LABEL = [None, 'AND', 'OR', 'and', 'or', 'call']
PROBA = ['MIN', 'MAX', 'PROD', 'min', 'prod', 'call']
RANK = ['SUM', 'SQUARE', 'sum', 'call']
MODES = ['numerical', 'categorical', 'multiset', 'positive', 'negative', 'persist']


def cases(seed, tier):
    r = rng_of(seed, 24)
    for k in range(6000 if tier == 'thorough' else 600):
        n = r.randint(1, 4)
        d = r.randint(2, 5)
        part = None if r.random() < .1 else [sorted(r.sample(range(d), r.randint(1, min(3, d))), key=lambda _: r.random()) for _ in range(n)]
        kind = r.choice(['plain', 'plain', 'vs', 'margin', 'modes', 'cat', 'multi'])
        yield {'kind': kind, 'd': d, 'part': part, 'seed': r.randint(0, 10 ** 6), 'label': r.choice(LABEL), 'proba': r.choice(PROBA),
               'rank': r.choice(RANK), 'loss': r.choice(['GREEDY', 'SQUARE', 'PRODUCT', 'greedy', 'call']),
               'vslabel': r.choice(['AND', 'OR', 'PROD', 'prod', 'call']), 'modes': [r.choice(MODES) for _ in range(n if part else 1)],
               'single': r.random() < .3, 'only': r.random() < .2, 'again': r.random() < .5}


class Model:
    made = None

    def __init__(self, **kw):
        self.kw, self.log = kw, []
        self.w = None
        if Model.made is not None:
            Model.made.append(self)

    def clone(self):
        return Model(**self.kw)

    def fit(self, X, y):
        self.log.append(('fit', np.array(X), np.array(y)))

    def clear(self):
        self.log.append(('clear',))

    def h(self, X, salt):
        X = np.asarray(X, dtype=float)
        return np.modf(np.abs(np.sin((X * (np.arange(X.shape[1]) + 1.3)).sum(axis=1) * 3.7 + salt + self.key)))[0]

    def predict(self, X):
        return (self.h(X, 0) > .4).astype(float)

    def predict_proba(self, X):
        p = self.h(X, 1)
        return np.where(p < .2, .5, p)

    def rank(self, X):
        return self.h(X, 2) - .3


LF = {'AND': lambda V: V.min(axis=0), 'OR': lambda V: V.max(axis=0)}
PF = {'MIN': lambda V: V.min(axis=0), 'MAX': lambda V: V.max(axis=0), 'PROD': lambda V: np.prod(V, axis=0)}
RF = {'SUM': lambda V: V.sum(axis=0), 'SQUARE': lambda V: (V ** 2).sum(axis=0)}
QF = {'GREEDY': lambda V: np.prod([1 - 2 * v * (1 - v) for v in V], axis=0), 'SQUARE': lambda V: ((V - .5) ** 2).sum(axis=0),
      'PRODUCT': lambda V: np.abs(np.prod(V, axis=0) - .5)}
CALL = lambda V: V[0] * .7 + V[-1] * .1


def check(case):
    rs = np.random.RandomState(case['seed'])
    {'cat': polytopes, 'multi': polytopes, 'modes': modes}.get(case['kind'], learners)(case, rs)
    return True


def learners(case, rs):
    from aideme.active_learning.version_space import subspace as S
    d, part, kind = case['d'], case['part'], case['kind']
    cols = [list(range(d))] if part is None else part
    k = len(cols)
    call = lambda name: CALL if name == 'call' else name
    template = Model()
    saved = S.KernelVersionSpace, S.SimpleMargin
    try:
        if kind == 'plain':
            l = S.SubspaceLearner(template, part if not case['again'] else [[0]], call(case['label']), call(case['proba']), call(case['rank']))
            if case['again']:
                l.set_factorization_structure(partition=part)
            lab = case['label']
            lf = None if lab is None else LF.get(lab.upper(), CALL)
            pf, rf, rkind = PF.get(case['proba'].upper(), CALL), RF.get(case['rank'].upper(), CALL), 'rank'
        elif kind == 'vs':
            S.KernelVersionSpace = Model
            l = S.SubspatialVersionSpace(part, 'numerical', call(case['vslabel']), call(case['loss']))
            v = case['vslabel'].upper()
            lf, pf = {'AND': (LF['AND'], PF['MIN']), 'OR': (LF['OR'], PF['MAX']), 'PROD': (None, PF['PROD'])}.get(v, (CALL, None))
            rf, rkind = QF.get(case['loss'].upper(), CALL), 'predict_proba'
        else:
            S.SimpleMargin = Model
            l = S.SubspatialSimpleMargin(part, C=2., kernel='linear')
            lf, pf, rf, rkind = LF['AND'], None, RF['SUM'], 'rank'
            req(all(m.kw.get('C') == 2. and m.kw.get('kernel') == 'linear' for m in l.learners), 'parameters lost: %s', [m.kw for m in l.learners])
    finally:
        S.KernelVersionSpace, S.SimpleMargin = saved
    models = list(l.learners)
    req(len(models) == k and len({id(m) for m in models}) == k and all(m is not template for m in models), '%d models for %d subspaces', len(models), k)
    for i, m in enumerate(models):
        m.key = i + 1
    n = rs.randint(1, 6)
    X, Y = rs.randint(-3, 4, (n, d)) / 2., rs.randint(0, 2, (n, k)).astype(float)
    X0, Y0 = X.copy(), Y.copy()
    l.fit(X, Y)
    for i, m in enumerate(models):
        fits = [e for e in m.log if e[0] == 'fit']
        req(len(fits) == 1 and np.array_equal(fits[0][1], X0[:, cols[i]]) and np.array_equal(fits[0][2], Y0[:, i]),
            'subspace %d was not fitted with its own columns %s and labels', i, cols[i])
    V = {q: np.array([getattr(m, q)(X0[:, cols[i]]) for i, m in enumerate(models)]) for q in ('predict', 'predict_proba', 'rank')}
    for q in V:
        got = getattr(l, q + '_all')(X)
        req(np.array_equal(got, V[q]), '%s_all: %s, expected %s', q, got, V[q])

    def same(name, got, exp):
        req(np.shape(got) == np.shape(exp) and np.allclose(got, exp, rtol=1e-12, atol=1e-12), '%s: %s, expected %s', name, got, exp)
    if pf is not None:
        p = pf(V['predict_proba'])
        same('predict_proba', l.predict_proba(X), p)
    if lf is not None:
        same('predict', l.predict(X), lf(V['predict']))
    elif pf is not None and not np.any(np.abs(p - .5) < 1e-9):
        same('predict', l.predict(X), (p > .5).astype(float))
    same('rank', l.rank(X), rf(V[rkind]))
    req(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'the data were changed')
    req(not template.log, 'the template was used: %s', template.log)
    req(all(len(m.log) == 1 for m in models), 'answering changed the models')
    l.clear()
    req(all([e[0] for e in m.log] == ['fit', 'clear'] for m in models), 'not every model was reset once')
    if k > 1:
        req(raises(IndexError, l.fit, X, Y[:, :k - 1]), 'labels with too few columns were accepted')


def modes(case, rs):
    from aideme.active_learning.version_space import subspace as S
    part, ms = case['part'], case['modes']
    k = 1 if part is None else len(part)
    mode = ms[0] if case['single'] else ms
    l = S.SubspatialVersionSpace(part, mode, numerical_only=case['only'])
    exp = {'categorical': 'CategoricalActiveLearner', 'multiset': 'MultiSetActiveLearner'}

    def right(names):
        e = ['KernelVersionSpace' if case['only'] else exp.get(m, 'KernelVersionSpace') for m in names]
        got = [type(x).__name__ for x in l.learners]
        req(got == e, 'models %s for modes %s', got, names)
        req(len({id(x) for x in l.learners}) == k, 'models shared between subspaces')
    names = [ms[0]] * k if case['single'] else ms
    right(names)
    l.set_factorization_structure(partition=part, mode=names[::-1])
    right(names[::-1])
    req(raises(ValueError, l.set_factorization_structure, partition=part, mode=names + ['numerical']), 'a mode too many was accepted')
    if not case['only']:
        req(raises(ValueError, l.set_factorization_structure, partition=part, mode='ordinal'), 'an unknown mode was accepted')


def polytopes(case, rs):
    from aideme.active_learning.version_space import categorical as C
    from aideme.active_learning.dsm import polytope as P
    multi = case['kind'] == 'multi'
    l, ref = (C.MultiSetActiveLearner(), P.MultiSetPolytope()) if multi else (C.CategoricalActiveLearner(), P.CategoricalPolytope())
    d = case['d'] if multi else 1
    good = rs.randint(0, 2, d).astype(bool)
    grid = rs.randint(0, 2, (8, d)).astype(float) if multi else np.arange(5.).reshape(-1, 1)

    class Data:
        def last_training_set(self, *a, **k):
            return X, y
    for _ in range(4):
        n = rs.randint(1, 4)
        X = rs.randint(0, 2, (n, d)).astype(float) if multi else rs.randint(0, 5, (n, 1)).astype(float)
        y = np.array([float(all(good[j] or not x[j] for j in range(d))) for x in X]) if multi else (X[:, 0] > 2).astype(float)
        if rs.rand() < .1:
            y = 1 - y
        way = rs.randint(3)
        if way == 0:
            ref.clear()
        try:
            ok = ref.update(X.copy(), y.copy()) and ref.is_valid
        except RuntimeError:
            ok = False
        try:
            l.fit(X.copy(), y.copy()) if way == 0 else l.fit_data(Data())
            req(ok, 'conflicting labels %s %s were accepted', X.tolist(), y.tolist())
        except RuntimeError:
            req(not ok, 'consistent labels %s %s were rejected', X.tolist(), y.tolist())
            return
        p, e = np.asarray(l.predict_proba(grid.copy())), ref.predict(grid.copy())
        req(p.shape == (len(grid),) and np.all((p >= 0) & (p <= 1)), 'probabilities %s', p)
        sure = e != .5
        if multi:
            req(np.allclose(p[e == 1], 1), 'known positive points have probabilities %s', p[e == 1])
            neg = np.array([any(x[j] and j in ref._neg_indexes for j in range(d)) for x in grid]) if hasattr(ref, '_neg_indexes') else e == 0
            req(np.allclose(p[neg & (e == 0)], 0), 'known negative points have probabilities %s', p[neg & (e == 0)])
        else:
            req(np.allclose(p, e), 'probabilities %s, expected %s', p, e)
            req(np.array_equal(np.asarray(l.predict(grid.copy()), dtype=float), (e > .5).astype(float)), 'labels %s for probabilities %s', l.predict(grid.copy()), e)
            req(np.allclose(l.rank(grid.copy()), np.abs(e - .5)), 'ranks %s for probabilities %s', l.rank(grid.copy()), e)
        if rs.rand() < .1:
            l.clear()
            ref.clear()
