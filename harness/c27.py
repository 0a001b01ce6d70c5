"""Changes of structure of factorized classifiers (C27)."""
import itertools

import numpy as np

from harness.base import Fail, Skip, req, rng_of, raises

RULE = ('random weight matrices, relevance masks, fixed structures, partitions and losses; pruning, copies, relevant attributes, learned '
        'structures, partial labels, parameter maps, merging and partition selection against their definitions; non-trivial: a structure compared')
KINDS = ['prune', 'relevant', 'struct', 'labels', 'mask', 'fit', 'merge', 'brute', 'greedy', 'phases']


def cases(seed, tier):
    r = rng_of(seed, 27)
    for k in range(6000 if tier == 'thorough' else 700):
        kind = KINDS[k % len(KINDS)]
        if kind == 'phases' and k % 40 != 39:
            kind = 'labels'
        yield {'kind': kind, 'seed': r.randint(0, 10 ** 6), 'K': r.randint(1, 5), 'd': r.randint(1, 5), 'bias': r.random() < .6,
               'groups': r.random() < .4, 'w0': r.random() < .7, 'max_dim': r.choice([None, None, 1, 2, 3]), 'max_part': r.choice([None, None, 1, 2, 3, 9])}


def check(case):
    rs = np.random.RandomState(case['seed'])
    return globals()['do_' + case['kind']](case, rs) or True


def learner(case, rs, K=None, d=None):
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import Adam
    o = LinearFactorizationLearner(Adam(), add_bias=case['bias'])
    K, d = K or case['K'], d or case['d']
    if not (hasattr(o, '_weights') and hasattr(o, '_bias')):
        raise Skip
    o._weights = rs.normal(size=(K, d)).round(2)
    o._bias = rs.normal(size=K).round(2) if case['bias'] else None
    return o


def sig(z):
    return 1 / (1 + np.exp(-z))


def do_prune(case, rs):
    from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
    o = learner(case, rs)
    K, d = o._weights.shape
    o._weights[rs.rand(K) < .3] = 0
    if case['bias']:
        o._bias[rs.rand(K) < .3] = 9.
        if rs.rand() < .1:
            o._bias[:] = 0
    W, b = o._weights.copy(), None if o._bias is None else o._bias.copy()
    X = rs.normal(size=(rs.randint(1, 6), d))
    thr, tol = rs.choice([.3, .5, .9, .99]), rs.choice([1e-8, .1])
    P = sig(X @ W.T + (0 if b is None else b))
    req(np.allclose(o.partial_proba(X), P), 'probabilities %s, expected %s', o.partial_proba(X), P)
    q = o.copy()
    req(np.array_equal(q.predict_proba(X), o.predict_proba(X)) and np.array_equal(q.weights, W), 'a copy predicts differently')
    q._weights += 1
    w = o.weights
    w += 1
    M = o.weight_matrix
    req(np.array_equal(M, np.hstack([W, b.reshape(-1, 1)]) if b is not None else W), 'parameters %s', M)
    M += 1
    if b is not None:
        q._bias += 1
        x = o.bias
        x += 1
    req(np.array_equal(o._weights, W) and (b is None or np.array_equal(o._bias, b)), 'a copy shares its parameters')
    keep = [k for k in range(K) if P[:, k].min() < thr and np.sqrt((W[k] ** 2).sum()) > tol]
    if np.any(np.abs(P.min(axis=0) - thr) < 1e-9):
        raise Skip
    r = prune_irrelevant_subspaces(X, o, thr, tol)
    req(np.array_equal(r._weights, W[keep]), 'kept weights %s of %s, expected rows %s', r._weights.tolist(), W.tolist(), keep)
    req(r._bias is None if b is None else np.array_equal(r._bias, b[keep]), 'kept biases %s, expected rows %s of %s', r._bias, keep, b)
    req(r is not o and np.array_equal(o._weights, W) and (b is None or np.array_equal(o._bias, b)), 'the original was changed')
    req(raises(ValueError, prune_irrelevant_subspaces, X, o, 1.5) and raises(ValueError, prune_irrelevant_subspaces, X, o, .5, 0), 'options out of range were accepted')


def do_relevant(case, rs):
    from aideme.active_learning.factorization.learn import compute_relevant_attributes
    from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
    o = learner(case, rs)
    K, d = o._weights.shape
    groups = None
    if case['groups']:
        p = list(rs.permutation(d))
        c = rs.randint(1, d + 1)
        groups = [g for g in (p[:c], p[c:]) if len(g)]
        o.penalty_term = SparseGroupLassoPenalty(.1, .1, groups=groups)
    W = o._weights.copy()
    if np.any(np.abs(W).sum(axis=1) == 0):
        raise Skip
    S = np.abs(W) / np.abs(W).sum(axis=1, keepdims=True)
    t = 1 / d
    if groups is not None:
        t = 1 / len(groups)
        T = np.zeros_like(S)
        for g in groups:
            for x in g:
                T[:, x] = S[:, g].sum(axis=1)
        S = T
    R = compute_relevant_attributes(o)
    sure = np.abs(S - t) > 1e-9
    req(np.array_equal(R[sure], (S > t)[sure]), 'relevant attributes %s for shares %s and threshold %s', R.tolist(), S.tolist(), t)
    req(np.array_equal(o._weights, W), 'the weights were changed')


def do_struct(case, rs):
    from aideme.active_learning.factorization.learn import compute_factorization
    R = rs.rand(case['K'], case['d']) < .5
    if not np.all(R.any(axis=1)):
        raise Skip
    R0 = R.copy()
    f = [[int(x) for x in g] for g in compute_factorization(R)]
    sets = {frozenset(np.where(r)[0].tolist()) for r in R}
    top = {s for s in sets if not any(s < t for t in sets)}
    req(f == sorted(sorted(s) for s in top), 'structure %s of the subspaces %s', f, [sorted(s) for s in sets])
    req(np.array_equal(R, R0), 'the relevant attributes were changed')


def labels_of(subs, fact, p):
    Y = np.ones((len(p), len(fact)))
    own = [[i for i, g in enumerate(fact) if set(s) <= set(g)] for s in subs]
    for i in range(len(fact)):
        for j in range(len(subs)):
            if i in own[j]:
                Y[:, i] *= p[:, j] ** (1 / len(own[j]))
    return Y


def do_labels(case, rs):
    from aideme.active_learning.factorization import learn as L
    fn = getattr(L, '__compute_partial_labels', None)
    if fn is None:
        raise Skip
    d = case['d']
    subs = [sorted(rs.choice(d, rs.randint(1, d + 1), replace=False).tolist()) for _ in range(case['K'])]
    sets = {frozenset(s) for s in subs}
    fact = sorted(sorted(s) for s in sets if not any(s < t for t in sets))
    if case['groups']:                     # one subspace shared by several groups
        subs = [[0]] * rs.randint(1, 3) + [[0, i] for i in range(1, rs.randint(2, 6))] + subs[:1]
        sets = {frozenset(s) for s in subs}
        fact = sorted(sorted(s) for s in sets if not any(s < t for t in sets))
    p = rs.rand(rs.randint(1, 6), len(subs)) ** .3
    if case['w0']:                         # all but one certain
        q = rs.randint(len(subs))
        p[:, [j for j in range(len(subs)) if j != q]] = 1.
    Y = labels_of(subs, fact, p)
    if np.any(np.abs(Y - .5) < 1e-9):
        raise Skip
    got = fn(subs, fact, p)
    req(np.array_equal(got, (Y > .5).astype(float)), 'partial labels %s, expected %s for subspaces %s and groups %s', np.asarray(got).tolist(), (Y > .5).astype(float).tolist(), subs, fact)


def structure(case, rs):
    d = case['d']
    return [rs.choice(d, rs.randint(1, d + 1), replace=False).tolist() for _ in range(min(case['K'], 3))]


def do_mask(case, rs):
    from aideme.active_learning.factorization.linear import LinearFactorizationLoss
    d, f, bias = case['d'], structure(case, rs), case['bias']
    X, y = rs.normal(size=(4, d)), rs.randint(0, 2, 4).astype(float)
    o = LinearFactorizationLoss(X, y, add_bias=bias, factorization=f)
    pl = [(k, x) for k, g in enumerate(f) for x in sorted(g) + ([d] if bias else [])]
    w = rs.normal(size=len(pl))
    b, W = o.get_weights_matrix(w.copy())
    E = np.zeros((len(f), d + 1))
    for v, (k, x) in zip(w, pl):
        E[k, x] = v
    req(np.array_equal(W, E[:, :d]), 'weights %s for structure %s, expected %s', W.tolist(), f, E[:, :d].tolist())
    req(b is None if not bias else np.array_equal(b, E[:, d]), 'bias %s, expected %s', b, E[:, d])
    free = LinearFactorizationLoss(X, y, add_bias=bias)
    w = rs.normal(size=(3, d + bias))
    b, W = free.get_weights_matrix(w.copy())
    req(np.array_equal(W, w[:, :d]) and (b is None if not bias else np.array_equal(b, w[:, d])), 'free structure: weights %s bias %s of %s', W, b, w)


def do_fit(case, rs):
    o = learner(case, rs)
    d, bias = case['d'], case['bias']
    f = structure(case, rs) if case['groups'] else None
    K = len(f) if f else case['K']
    X, y = rs.normal(size=(5, d)), rs.randint(0, 2, 5).astype(float)
    runs = []

    class Res:
        pass

    class Opt:
        def minimize(self, x0, fun, jac):
            r = Res()
            r.x, r.fun = x0 + rs.normal(size=x0.shape).round(2), rs.randint(0, 5) + rs.rand()
            runs.append((np.array(x0), fun, r))
            return r
    o.optimizer = Opt()
    n = rs.randint(1, 4)
    x0 = rs.normal(size=(n, K, d + bias))
    x1 = x0.copy()
    res = o.fit(X, y, f if f else K, retries=n, x0=x0 if n > 1 or rs.rand() < .5 else x0[0])
    req(len(runs) == n, '%d runs for %d tries', len(runs), n)
    pl = None if f is None else [(k, x) for k, g in enumerate(f) for x in sorted(g) + ([d] if bias else [])]
    for q, (s, fun, r) in enumerate(runs):
        e = x1[q] if pl is None else np.array([x1[q][p] for p in pl])
        req(np.array_equal(s, e), 'run %d starts at %s, expected %s', q, s, e)
    best = min(r.fun for _, _, r in runs)
    req(res.fun == best, 'value %s kept, best %s', res.fun, best)
    E = np.zeros((K, d + 1))
    if pl is None:
        E[:, :d + bias] = res.x.reshape(K, d + bias)
    else:
        for v, p in zip(res.x, pl):
            E[p] = v
    req(np.array_equal(o.weights, E[:, :d]) and (o._bias is None if not bias else np.array_equal(o.bias, E[:, d])), 'weights %s bias %s, expected %s', o.weights, o.bias, E)
    req(o.num_subspaces == K, '%s subspaces', o.num_subspaces)


def split(rs, N):
    p, out = list(rs.permutation(N)), []
    while p:
        k = rs.randint(1, len(p) + 1)
        out.append([int(x) for x in p[:k]])
        p = p[k:]
    return out


def layout(clf, w):
    pos, fw, bw = 0, {}, []
    for p in clf.partition:
        bw.append(w[pos])
        for k, x in enumerate(p):
            req(x not in fw, 'feature %s twice in %s', x, clf.partition)
            fw[x] = w[pos + 1 + k]
        pos += 1 + len(p)
    req(pos == len(w), '%d parameters for the partition %s', len(w), clf.partition)
    return fw, bw


def do_merge(case, rs):
    from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier as F
    N = case['d']
    parts = split(rs, N)
    w = rs.normal(size=N + len(parts)).round(3)
    o = F([list(p) for p in parts], w.copy())
    X = rs.normal(size=(4, N))
    fo, bo = layout(o, w)
    P = np.array([sig(bo[k] + sum(X[:, x] * fo[x] for x in p)) for k, p in enumerate(parts)])
    for k, p in enumerate(parts):
        req(np.allclose(o.partial_proba(X[:, p], k), P[k]), 'probabilities of part %s', p)
    req(np.allclose(o.predict_proba(X), P.prod(axis=0)), 'probabilities %s, expected %s', o.predict_proba(X), P.prod(axis=0))
    i, j = rs.randint(len(parts)), rs.randint(len(parts))
    q = o.merge_partitions(i, j, case['w0'])
    req(o.partition == parts and np.array_equal(o.weights, w), 'the classifier was changed')
    if i == j:
        req(q.partition == parts, 'merging a part with itself gives %s', q.partition)
        return
    exp = [sorted(p) for k, p in enumerate(parts) if k not in (i, j)] + [sorted(parts[i] + parts[j])]
    req(sorted(sorted(p) for p in q.partition) == sorted(exp), 'partition %s after joining %s and %s', q.partition, parts[i], parts[j])
    fq, bq = layout(q, q.weights)
    if not case['w0']:
        req(not np.any(q.weights), 'weights %s', q.weights)
        return
    req(all(fq[x] == fo[x] for x in range(N)), 'weights of features %s, expected %s', fq, fo)
    for p, b in zip(q.partition, bq):
        req(np.isclose(b, sum(bo[k] for k, u in enumerate(parts) if set(u) <= set(p))), 'bias %s of part %s', b, p)
    req(raises(ValueError, F, parts, np.zeros(len(w) + 1)), 'a weight too many was accepted')


def everything(l):
    if not l:
        return [[]]
    out = []
    for p in everything(l[1:]):
        out.append([[l[0]]] + p)
        out += [p[:k] + [[l[0]] + p[k]] + p[k + 1:] for k in range(len(p))]
    return out


def canon(p):
    return tuple(sorted(tuple(sorted(g)) for g in p))


def select(case, rs, greedy):
    from aideme.active_learning.factorization.partitioning import learn as L
    from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier as F
    N = min(case['d'], 4)
    loss, asked = {}, []

    class Learner:
        def fit_and_loss(self, X, y, partition, x0=None):
            k = canon(partition)
            req(sorted(x for g in k for x in g) == list(range(N)) and all(k), 'not a partition: %s', partition)
            loss.setdefault(k, rs.rand())
            asked.append(k)
            return F([list(g) for g in partition], rs.normal(size=N + len(partition))), loss[k]

        def compute_factorization_loss(self, *a):
            return self.fit_and_loss(*a)[1]
    o = (L.GreedySelector if greedy else L.BruteForceSelector)(case['max_part'], case['max_dim'])
    D, K = min(N, case['max_dim'] or N), min(N, case['max_part'] or N)
    X = rs.normal(size=(3, N))
    if K * D < N:
        req(raises(ValueError, o, X, None, Learner()), 'impossible limits were accepted')
        return
    r = o(X, None, Learner())
    k = canon(r)
    req(sorted(x for g in k for x in g) == list(range(N)) and all(k), 'not a partition: %s', r)
    req(max(map(len, k)) <= D, 'a part of %s is too large', r)
    ok = [canon(p) for p in everything(list(range(N))) if max(map(len, p)) <= D and len(p) <= K]
    if not greedy:
        req(k in ok, '%s has too many parts', r)
        if asked:
            req(set(ok) <= set(asked), 'partitions never tried: %s', set(ok) - set(asked))
            req(loss[k] == min(loss[p] for p in ok), '%s is not the best partition', r)
    elif asked:
        req(loss[k] == min(loss.values()), '%s is not the best partition tried', r)


def do_brute(case, rs):
    select(case, rs, False)


def do_greedy(case, rs):
    select(case, rs, True)


def do_phases(case, rs):
    from aideme.active_learning.factorization import learn as L
    import aideme.active_learning.factorization.linear as lin
    case = dict(case, bias=True)
    d = max(2, case['d'])
    model = learner(case, rs, 2, d)
    X = rs.normal(size=(8, d))
    y = (X[:, 0] > 0).astype(float)
    data = rs.normal(size=(20, d))

    class DS:
        def training_set(self, *a, **k):
            return X.copy(), y.copy()
    DS.data = data
    made, rel = [], []
    C, cf = L.LinearFactorizationLearner, L.compute_factorization

    class Rec(C):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)

        def fit(self, X, y, factorization, retries=1, x0=None):
            self.seen = (X.copy(), factorization, None if x0 is None else x0.copy())
            return super().fit(X, y, factorization, retries, x0)

    def structure(r):
        rel.append(r.copy())
        return cf(r)
    if not np.array_equal(model.weight_matrix.shape, (2, d + 1)):
        raise Skip
    start = model.weight_matrix
    L.LinearFactorizationLearner, L.compute_factorization = Rec, structure
    try:
        try:
            f, Y = L.compute_factorization_and_partial_labels(DS(), model, max_iter=int(rs.randint(2, 12)))
        except (ValueError, IndexError, RuntimeError):
            if made and hasattr(made[0], 'seen') and len(made) == 1:
                raise Skip            # nothing left after pruning
            raise
    finally:
        L.LinearFactorizationLearner, L.compute_factorization = C, cf
    fits = [m for m in made if hasattr(m, 'seen')]
    if len(fits) != 2 or len(rel) != 1:
        raise Skip
    req(np.array_equal(fits[0].seen[2], start), 'refined from %s instead of the current parameters', fits[0].seen[2])
    pruned = L.prune_irrelevant_subspaces(data, fits[0])
    R = L.compute_relevant_attributes(pruned)
    subs = [np.where(r)[0].tolist() for r in R]
    req(np.array_equal(R, rel[0]), 'structure of %s, expected %s', rel[0], R)
    req([list(map(int, s)) for s in fits[1].seen[1]] == subs and np.array_equal(fits[1].seen[2], pruned.weight_matrix), 'the sparse model has subspaces %s, expected %s', fits[1].seen[1], subs)
    E = labels_of(subs, f, fits[1].partial_proba(X))
    req(np.array_equal(Y, (E > .5).astype(float)), 'partial labels %s, expected %s', Y, E)
    req(np.array_equal(model.weight_matrix, start), 'the current model was changed')
