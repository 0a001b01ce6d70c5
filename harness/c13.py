"""Combined polytopes (C13): flipped, persistent and factorized ones against their parts."""
import itertools

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('histories of up to 4 batches of points of {0..3} (all short ones) and random ones over one to three subspaces of one to two '
        'columns in every combination of modes; compared with stand-alone parts fed by hand; non-trivial: at least one update')
MODES = ['positive', 'negative', 'persist', 'categorical', 'multiset']


def cases(seed, tier):
    for n in (1, 2, 3):
        for xs in itertools.product(range(4), repeat=n):
            for ls in itertools.product((0, 1), repeat=n):
                for cut in {1, n}:
                    ops = [[[[x] for x in xs[i:i + cut]], [[l] for l in ls[i:i + cut]]] for i in range(0, n, cut)]
                    yield {'parts': [[0]], 'modes': ['persist'], 'ops': ops}
    r = rng_of(seed, 13)
    for _ in range(12000 if tier == 'thorough' else 900):
        k = r.randint(1, 3)
        modes = [r.choice(MODES) for _ in range(k)]
        cols = list(range(4))
        r.shuffle(cols)
        parts = []
        for m in modes:
            w = 1 if m != 'multiset' else r.choice([1, 1, 2])
            w = min(w, max(1, len(cols) - (k - len(parts) - 1)))
            parts.append([cols.pop() for _ in range(w)])
        ops = []
        for _ in range(r.randint(1, 5)):
            m = r.randint(1, 4)
            X = [[r.randint(0, 3) for _ in range(4)] for _ in range(m)]
            for j, md in enumerate(modes):
                if md in ('categorical', 'multiset'):
                    for x in X:
                        for c in parts[j]:
                            x[c] = r.randint(0, 1) if md == 'multiset' else r.randint(0, 3)
            # mostly consistent: threshold concept per subspace
            y = [[int(all(x[c] <= 1 for c in parts[j])) ^ (r.random() < .12) for j in range(k)] for x in X]
            ops.append([X, y])
            if r.random() < .08:
                ops.append('c')
        yield {'parts': parts, 'modes': modes, 'ops': ops}


class Part:
    """one stand-alone part, fed by hand"""

    def __init__(self, mode):
        from aideme.active_learning.dsm import polytope as P
        self.mode = mode
        flip = lambda: [P.Polytope(1e-12), True]
        self.alts = {'positive': lambda: [[P.Polytope(1e-12), False]], 'negative': lambda: [flip()],
                     'persist': lambda: [[P.Polytope(1e-12), False], flip()],
                     'categorical': lambda: [[P.CategoricalPolytope(), False]],
                     'multiset': lambda: [[P.MultiSetPolytope(), False]]}[mode]()

    @property
    def valid(self):
        return any(a.is_valid for a, _ in self.alts)

    def predict(self, X):
        for a, f in self.alts:
            if a.is_valid:
                return 1 - a.predict(X) if f else a.predict(X)
        return np.full(len(X), .5)

    def update(self, X, y):
        ok = True
        for a, f in self.alts:
            if a.is_valid:
                ok = bool(a.update(X, 1 - y if f else y)) and ok
        return ok


def check(case):
    from aideme.active_learning.dsm.model import PolytopeModel, FactorizedPolytopeModel
    parts, modes = case['parts'], case['modes']
    k = len(parts)
    new = lambda: [Part(m) for m in modes]
    ref = new()
    alone = k == 1 and PolytopeModel(modes[0], 1e-12)
    rows = [x for op in case['ops'] if op != 'c' for x in op[0]]
    ncol = len(rows[0]) if rows else 4
    same = len(set(modes)) == 1 and len(rows) % 2       # one name for all parts; no structure: one part with all columns
    fm = FactorizedPolytopeModel(None if same and ncol == 1 else [list(p) for p in parts], modes[0] if same else list(modes), 1e-12)
    grid = np.array(rows + [[v] * ncol for v in (0, 1)] + ([] if any(m in ('categorical', 'multiset') for m in modes) else
                                                        [[v] * ncol for v in (.5, 1.5, 2, 5)]), dtype=float)
    did = False

    def right(what):
        for m, nm in ((fm, 'factorized'), (alone, 'plain')):
            if not m:
                continue
            req(bool(m.is_valid) == any(p.valid for p in ref), '%s %s: is_valid %s, expected %s', what, nm, m.is_valid, any(p.valid for p in ref))
        G = grid.copy()
        exp = np.ones(len(G)) if all(p.valid for p in ref) else np.full(len(G), .5)
        for p, cols in zip(ref, parts):
            if p.valid:
                exp = np.minimum(exp, p.predict(G[:, cols]))
        got = fm.predict(G)
        req(np.array_equal(got, exp), '%s: factorized model answers %s, expected %s', what, list(got), list(exp))
        part = fm.predict_partial(G)
        for j, (p, cols) in enumerate(zip(ref, parts)):
            e = p.predict(G[:, cols]) if p.valid else np.full(len(G), .5)
            req(np.array_equal(part[:, j], e), '%s: partial answers of subspace %d: %s, expected %s', what, j, list(part[:, j]), list(e))
        if alone:
            e = ref[0].predict(G[:, parts[0]])
            a = alone.predict(G[:, parts[0]])
            req(np.array_equal(a, e), '%s: %s polytope answers %s, expected %s', what, modes[0], list(a), list(e))
        req(np.array_equal(G, grid), '%s: predicting changed the data', what)
    right('new')
    for op in case['ops']:
        if op == 'c':
            fm.clear()
            if alone:
                alone.clear()
            ref = new()
            right('reset')
            continue
        X, y = np.array(op[0], dtype=float), np.array(op[1], dtype=float)
        if not any(p.valid for p in ref):
            req(raises(RuntimeError, fm.update, X, y), 'an invalid factorized polytope accepted an update')
            continue
        exp = True
        for j, (p, cols) in enumerate(zip(ref, parts)):
            if p.valid:
                exp = p.update(X[:, cols].copy(), y[:, j].copy()) and exp
        did = True
        got = fm.update(X.copy(), y.copy())
        req(bool(got) == exp, 'after %s: success %s, expected %s', op, got, exp)
        if alone:
            got = alone.update(X[:, parts[0]].copy(), y[:, 0].copy())
            req(bool(got) == exp, 'after %s: success of the plain model %s, expected %s', op, got, exp)
        right('after %s' % (op,))
    return did


def smaller(case):
    ops = case['ops']
    for i in reversed(range(len(ops))):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
        if isinstance(ops[i], list) and len(ops[i][0]) > 1:
            for j in range(len(ops[i][0])):
                yield dict(case, ops=ops[:i] + [[q[:j] + q[j + 1:] for q in ops[i]]] + ops[i + 1:])
