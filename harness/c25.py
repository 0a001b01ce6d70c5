"""The two-phase factorization learner (C25) driven with recording components."""
import numpy as np

from harness.base import Fail, Skip, req, rng_of, raises

RULE = ('random histories of fits, questions and resets with recording models; every option; scripted structures and user groups for the '
        'switch; construction of several default learners; non-trivial: at least one iteration of the history')


def cases(seed, tier):
    r = rng_of(seed, 25)
    for k in range(4000 if tier == 'thorough' else 400):
        kind = r.choice(['swap', 'swap', 'swap', 'fact', 'fact', 'simple', 'flm'])
        d = r.randint(2, 5)
        user = groups(r, d)
        case = {'kind': kind, 'd': d, 'user': user, 'swap_iter': r.randint(1, 4), 'same': r.random() < .3, 'onpred': r.random() < .5,
               'prune': r.random() < .5, 'adapt': r.random() < .5, 'has_fact': r.random() < .7, 'every': r.randint(1, 3), 'repeat': r.randint(1, 2),
               'sub': r.randint(1, 4), 'retries': r.randint(1, 3), 'sample': r.choice([None, 3, 50]),
               'structs': [r.choice([user, user, perturb(r, user, d), groups(r, d)]) for _ in range(14)], 'sticky': r.random() < .6,
               'ops': [r.choice(['fit'] * 7 + ['ask', 'clear'] if r.random() < .9 else ['fit']) for _ in range(r.randint(3, 14))],
               'pick': r.randint(0, 10 ** 6), 'penit': r.randint(0, 4), 'log': r.random() < .4, 'pen': r.choice([0, 1e-3, .5])}
        if kind == 'swap' and r.random() < .25:      # far enough to switch to the second model, a reset, and once more
            more = ['fit'] * (case['swap_iter'] + 4)
            case.update(has_fact=True, every=1, sticky=True, repeat=1, structs=[user] * 14, ops=more + ['ask', 'clear'] + more + ['ask'])
        yield case


def groups(r, d):
    xs = list(range(d))
    r.shuffle(xs)
    out, i = [], 0
    while i < d:
        k = r.randint(1, 2)
        out.append(xs[i:i + k])
        i += k
    return out


def perturb(r, user, d):
    """sub-groups of the user's groups, in another order"""
    out = [sorted(r.sample(g, r.randint(1, len(g)))) for g in user]
    big = [k for k, g in enumerate(user) if len(g) > 1]
    if big and len(user) > 1 and r.random() < .3:        # two subspaces inside one group of the user, none for another
        k = r.choice(big)
        drop = r.choice([j for j in range(len(user)) if j != k])
        out = [q for j, q in enumerate(out) if j not in (k, drop)] + [[user[k][0]], [user[k][1]]]
    if r.random() < .3:
        out.append([r.randrange(d)])
    if r.random() < .2:
        out = [sorted(out[0] + [r.randrange(d)])] + out[1:]
    r.shuffle(out)
    return out


class Rec:
    def __init__(self, name, log):
        self.name, self.log = name, log

    def fit_data(self, data):
        self.log.append((self.name, 'fit_data', data))

    def clear(self):
        self.log.append((self.name, 'clear'))

    def _q(self, kind, X):
        self.log.append((self.name, kind, np.array(X)))
        s = {'predict': 1, 'predict_proba': 2, 'rank': 3}[kind]
        v = np.modf(np.abs(np.sin(np.asarray(X, float).sum(axis=1) * 3.1 + s + len(self.name))))[0]
        return np.round(v) if kind == 'predict' else v

    def predict(self, X):
        return self._q('predict', X)

    def predict_proba(self, X):
        return self._q('predict_proba', X)

    def rank(self, X):
        return self._q('rank', X)

    def set_factorization_structure(self, **kw):
        self.log.append((self.name, 'structure', kw))

    def set_random_state(self, *a):
        pass


class Opt:
    _max_iter = 77


class Lin(Rec):
    def __init__(self, name, log):
        Rec.__init__(self, name, log)
        self.optimizer, self.n = Opt(), 0
        self._weights = self._bias = None
        self.penalty_term = None
        self.feature_groups = None
        self.add_bias = True

    def fit(self, X, y, factorization, retries=1, x0=None):
        self.log.append((self.name, 'fit', np.array(X), np.array(y), factorization, retries, None if x0 is None else np.array(x0), self.optimizer._max_iter))
        self.n += 1
        k = factorization
        self._weights = np.arange(k * 2, dtype=float).reshape(k, 2) + self.n
        self._bias = np.full(k, float(self.n))

    def clear(self):
        Rec.clear(self)
        self._weights = self._bias = None

    weights = property(lambda s: None if s._weights is None else s._weights.copy())
    bias = property(lambda s: None if s._bias is None else s._bias.copy())
    weight_matrix = property(lambda s: None if s._weights is None else np.hstack([s._weights, s._bias.reshape(-1, 1)]))
    num_subspaces = property(lambda s: 0 if s._weights is None else len(s._weights))


class Data:
    def __init__(self, r, d, log):
        self.data = r.rand(8, d)
        self.log = log
        self.partial = None
        self.n = 3

    def sample(self, n=None):
        self.log.append(('data', 'sample', n))
        return self.data[:4]

    def training_set(self, get_partial=False):
        return self.data[:self.n], np.array([1., 0., 1.])[:self.n]

    def set_partial_labels(self, Y):
        self.partial = np.array(Y)
        self.log.append(('data', 'partial', np.array(Y)))


def same(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


def check(case):
    options(case)
    return {'swap': run_swap, 'fact': run_fact, 'simple': run_simple, 'flm': run_flm}[case['kind']](case)


def options(case):
    import aideme.active_learning.factorization.active_learning as M
    v = (0, -1, 1, 2)[case['pick'] % 4]
    for cls, args, names in ((M.SwapLearner, (Rec('a', []), Lin('s', [])), ('swap_iter', 'num_subspaces', 'retries', 'train_sample_size')),
                             (M.FactorizationManager, ([[0]],), ('compute_every', 'stable_count', 'max_iter', 'step_size', 'l1_penalty', 'l2_sqrt_penalty'))):
        for nm in names:
            req(raises(ValueError, cls, *args, **{nm: v}) == (v <= 0), '%s=%s', nm, v)
    v = (-.1, 0, .5, 1, 1.1)[case['pick'] % 5]
    req(raises(ValueError, M.SwapLearner, Rec('a', []), Lin('s', []), prune_threshold=v) == (v < 0 or v > 1), 'prune_threshold=%s', v)


def compatible(F, U):
    """order of the groups of F by user group, or None"""
    U = sorted(sorted(u) for u in U)
    if len(F) != len(U):
        return None
    own = []
    for f in F:
        m = [j for j, u in enumerate(U) if set(f) <= set(u)]
        if len(m) != 1:
            return None
        own.append(m[0])
    if len(set(own)) != len(own):
        return None
    return [own.index(j) for j in range(len(U))]


def run_swap(case):
    import aideme.active_learning.factorization.active_learning as M
    rs = np.random.RandomState(case['pick'])
    log = []
    al, sw = Rec('first', log), Lin('swap', log)
    rf = sw if case['same'] else Lin('refine', log)
    fm = Rec('fact', log) if case['has_fact'] else None
    asked = []
    ad = (lambda i: asked.append(i) or 100 + i) if case['adapt'] else None
    structs = list(case['structs'])
    if case['sticky']:
        structs = [structs[0]] * 6 + structs
    pos = [0]
    ys = {}

    def cf(data, model, **kw):
        F = structs[pos[0] % len(structs)]
        Y = rs.randint(0, 2, size=(5, len(F))).astype(float)
        pos[0] += 1
        log.append(('learn', 'structure', model, [list(g) for g in F], Y))
        return [list(g) for g in F], Y

    def pr(X, learner, threshold=.99, tol=1e-8):
        q = Lin('pruned', log)
        q._weights, q._bias, q.n = learner._weights[:max(1, len(learner._weights) - 1)], learner._bias[:max(1, len(learner._weights) - 1)], learner.n
        log.append(('learn', 'prune', X, learner, threshold, q))
        return q
    subst = {'compute_factorization_and_partial_labels': cf, 'prune_irrelevant_subspaces': pr,
             'compute_relevant_attributes': lambda m: np.ones((1, 2), bool), 'compute_factorization': lambda r: [[0]]}
    if any(not hasattr(M, k) for k in subst):
        raise Skip('the module no longer uses these functions under their names')
    saved = {k: getattr(M, k) for k in subst}
    try:
        for k, v in subst.items():
            setattr(M, k, v)
        o = M.SwapLearner(al, sw, None if case['same'] else rf, num_subspaces=case['sub'], retries=case['retries'], max_iter_adapter=ad,
                          swap_iter=case['swap_iter'], train_on_prediction=case['onpred'], train_sample_size=case['sample'], prune=case['prune'], prune_threshold=.5,
                          fact_model=fm, user_fact=case['user'], compute_fact_every=case['every'], fact_repeat=case['repeat'])
        data = Data(rs, case['d'], log)
        it, full, prev, count, cur = 0, False, None, 0, rf
        for op in case['ops']:
            del log[:]
            del asked[:]
            if op == 'clear':
                o.clear()
                req(('first', 'clear') in log and ('swap', 'clear') in log and (cur.name, 'clear') in log, 'reset does not reset the models: %r', log)
                req(fm is None or ('fact', 'clear') in log, 'reset does not reset the second model')
                it, full, prev, count = 0, False, None, 0
            elif op == 'ask':
                for kind in ('predict', 'predict_proba', 'rank'):
                    X = rs.rand(4, case['d'])
                    got = getattr(o, kind)(X)
                    who = al if it <= case['swap_iter'] else fm if full else cur
                    want = np.abs(who._q('predict_proba', X) - .5) if kind == 'rank' and who is cur else who._q(kind, X)
                    req(same(got, want), '%s does not come from the model of the phase (iteration %d of %d, full %s)', kind, it, case['swap_iter'], full)
                continue
            else:
                W0 = None if cur.weight_matrix is None else cur.weight_matrix
                o.fit_data(data)
                it += 1
                fits = [(x[0], x[1]) for x in log if x[1] in ('fit', 'fit_data')]
                if it <= case['swap_iter']:
                    req(fits == [('first', 'fit_data')] and log[0][2] is data, 'before the switch %r were fitted', fits)
                    req(o.linear_model is None and o.is_active_learning_phase, 'phase not reported')
                    continue
                req(not o.is_active_learning_phase and o.is_factorization_phase, 'phase not reported')
                if full:
                    req(fits == [('fact', 'fit_data')], 'in the full phase %r were fitted', fits)
                    continue
                lin = [x for x in log if x[1] == 'fit']
                req(('first', 'fit_data') not in fits and len(lin) == 1, 'after the switch %r were fitted', fits)
                x = lin[0]
                if it == case['swap_iter'] + 1:
                    X, y = data.training_set()
                    if case['onpred']:
                        X = data.data[:4]
                        y = al._q('predict', X)
                        req(('data', 'sample', case['sample']) in log, 'the sample has another size than asked for')
                    req(x[0] == 'swap' and same(x[2], X) and same(x[3], y), 'the factorized model was not trained on the right points and labels')
                    req(x[4] == case['sub'] and x[5] == case['retries'] and x[6] is None, 'the factorized model was trained with other options')
                    req(same(cur._weights, sw._weights) and same(cur._bias, sw._bias), 'the refining model does not start from the weights found')
                else:
                    X, y = data.training_set()
                    req(x[0] == cur.name and same(x[2], X) and same(x[3], y), 'refining does not use the labeled points')
                    req(x[4] == len(W0) and x[6] is not None and same(x[6], W0), 'refining does not start from the current weights')
                    if case['adapt']:
                        req(asked == [it - case['swap_iter'] - 1] and x[7] == 100 + asked[0], 'the budget is that of refinement %r', asked)
                    p = [z for z in log if z[1] == 'prune']
                    req(len(p) == (1 if case['prune'] else 0), 'pruned %d times', len(p))
                    if p:
                        req(p[0][2] is data.data and p[0][3] is cur and p[0][4] == .5, 'pruned with other arguments')
                        cur = p[0][5]
                req(o.linear_model is cur, 'another linear model than the current one answers')
                s = [z for z in log if z[1] == 'structure' and z[0] == 'learn']
                due = fm is not None and (it - case['swap_iter'] - 1) % case['every'] == 0
                req(len(s) == (1 if due else 0), 'the structure was learned %d times (due: %s)', len(s), due)
                sent = [z for z in log if z[0] == 'fact']
                if not due:
                    req(not sent, 'the second model was used before its turn')
                    continue
                req(s[0][2] is cur, 'the structure comes from another model')
                F, Y = s[0][3], s[0][4]
                count = count + 1 if prev is not None and F == prev else 0
                prev = F
                idx = compatible(F, case['user'])
                if count < case['repeat'] or idx is None:
                    req(not sent, 'switched too early (repeated %d of %d, order %r)', count, case['repeat'], idx)
                    continue
                full = True
                req([z[1] for z in sent] == ['structure', 'fit_data'], 'the second model got %r', [z[1] for z in sent])
                req([list(g) for g in sent[0][2]['partition']] == [F[i] for i in idx] and sent[0][2]['mode'] == 'numerical', 'structure %r instead of %r', sent[0][2], [F[i] for i in idx])
                req(data.partial is not None and same(data.partial, Y[:, idx]), 'partial labels in another order than the structure')
                order = [z[1] for z in log if z[1] in ('partial', 'fit_data')]
                req(order == ['partial', 'fit_data'], 'trained before the partial labels were stored')
        return True
    finally:
        for k, v in saved.items():
            setattr(M, k, v)


def run_fact(case):
    import aideme.active_learning.factorization.active_learning as M
    given = [list(g) for g in case['user']]
    o = M.FactorizationManager(given, compute_every=case['every'], stable_count=case['repeat'])
    req(given == case['user'], "the user's groups were changed")
    prev, count, last = None, 0, None
    for F in case['structs']:
        if case['sticky'] and prev is not None and count < case['repeat'] + 1:
            F = prev
        F = [list(g) for g in F]
        o.update(F)
        count = count + 1 if prev is not None and F == prev else 0
        prev = F
        idx = compatible(F, case['user'])
        ok = o.can_switch_to_full_factorization(F)
        req(bool(ok) == (count >= case['repeat'] and idx is not None), 'structure %r, user groups %r, repeated %d of %d: switch %s', F, case['user'], count, case['repeat'], ok)
        if ok:
            last = idx
            req(list(o.fact_reindexing) == idx, 'order %r instead of %r', o.fact_reindexing, idx)
    o.clear()
    req(o.fact_reindexing is None and not o.can_switch_to_full_factorization(case['user']), 'reset keeps the history')
    return True


def run_simple(case):
    from aideme.active_learning import SimplifiedSwapLearner as S
    import copy
    keep = {k: copy.deepcopy(v) for k, v in vars(S).items() if isinstance(v, dict) and not k.startswith('_')}
    try:
        kw = dict(swap_iter=case['swap_iter'], num_subspaces=case['sub'], use_vs=case['same'], use_fista=case['onpred'], cars=case['prune'], full_fact=case['has_fact'],
                  use_fact_vs=case['adapt'], train_sample_size=1000)
        a = S(refine_step_size=.123, **kw)
        b = S(**kw)
        m = S.get_optimizer(step_size=.5, max_iter=7, batch_size=case['sub'], adapt_step_size=True, adapt_every=3, N=10)
        ep = -(-10 // case['sub'])
        if hasattr(m, '_max_iter'):
            req(m._max_iter == 7 * ep, 'budget of %r for 7 epochs of %d batches', m._max_iter, ep)
        for fista in (False, True):
            kw2 = dict(step_size=.5, max_iter=7, batch_size=case['sub'], adapt_step_size=True, adapt_every=3, N=10)
            req(type(S.get_optimizer(use_fista=fista, **kw2)).__name__ == ('FISTA' if fista else 'Adam'), 'optimizer for use_fista=%s', fista)
        sch = getattr(m, '_step_size_scheduler', None)
        if hasattr(sch, 'adapt_every'):
            req(sch.adapt_every == 3 * ep, 'the step changes every %r iterations instead of %d', sch.adapt_every, 3 * ep)
        sw, rf = (getattr(getattr(a, nm, None), 'optimizer', None) for nm in ('_swap_model', '_refining_model'))
        req(sw is None or type(sw).__name__ == 'Adam', 'optimizer of the first factorized training')
        req(rf is None or type(rf).__name__ == ('FISTA' if case['onpred'] else 'Adam'), 'refining optimizer %r for use_fista=%s', rf, case['onpred'])
        want = None if not case['has_fact'] else 'SubspatialVersionSpace' if case['adapt'] else 'SubspatialSimpleMargin'
        if hasattr(a, '_fact_model'):
            req((None if a._fact_model is None else type(a._fact_model).__name__) == want, 'second model %r instead of %s', a._fact_model, want)
        if hasattr(a, '_active_learner'):
            req(type(a._active_learner).__name__ == ('KernelVersionSpace' if case['same'] else 'SimpleMargin'), 'first model %r', a._active_learner)
        now = {k: v for k, v in vars(S).items() if isinstance(v, dict) and not k.startswith('_')}
        req(now == keep, 'building a learner changed the defaults of the class: %r instead of %r', now, keep)
        d = keep[('FISTA' if case['onpred'] else 'REFINE') + ('_CARS' if case['prune'] else '_DEFAULT_PARAMS')]['step_size']
        for x, want in ((a, .123), (b, d)):
            opt = getattr(getattr(x, '_refining_model', None), 'optimizer', None)
            sch = getattr(opt, '_step_size_scheduler', None)
            if sch is not None and hasattr(sch, 'step_size'):
                req(sch.step_size == want, 'refining step %r instead of %r', sch.step_size, want)
        return True
    finally:
        for k, v in keep.items():
            setattr(S, k, v)


def run_flm(case):
    import aideme.active_learning.factorization.active_learning as M
    rs = np.random.RandomState(case['pick'])
    log = []
    prune = case['prune'] and hasattr(M, 'prune_irrelevant_subspaces')
    o = M.FLMUncertaintySampler(penalty=case['pen'], num_subspaces=case['sub'], prune=prune, penalty_iter=case['penit'], max_iter=5, log=case['log'])
    if prune:
        saved = M.prune_irrelevant_subspaces

        def pruning(X, learner, threshold=.99, tol=1e-8):
            q = learner
            if len(learner._weights) > 1 and case['adapt']:
                q = Lin('clf', log)
                q.penalty_term = learner.penalty_term
                q._weights, q._bias, q.n = learner._weights[:-1], learner._bias[:-1], learner.n
            log.append(('learn', 'prune', X, learner, threshold, q))
            return q
        M.prune_irrelevant_subspaces = pruning
        try:
            return flm_history(case, o, rs, log)
        finally:
            M.prune_irrelevant_subspaces = saved
    return flm_history(case, o, rs, log)


def flm_history(case, o, rs, log):
    clf = Lin('clf', log)
    clf.penalty_term = type('P', (), {'penalty': 'initial'})()
    o.clf = clf
    data = Data(rs, case['d'], log)
    it = 0
    for op in case['ops']:
        del log[:]
        if op == 'clear':
            o.clear()
            clf.penalty_term.penalty = 'initial'
            it = 0
            req(('clf', 'clear') in log, 'reset does not reset the model')
        elif op == 'fit':
            W0 = clf.weight_matrix
            o.fit_data(data)
            it += 1
            x = [z for z in log if z[1] == 'fit']
            X, y = data.training_set()
            req(len(x) == 1 and same(x[0][2], X) and same(x[0][3], y), 'not trained on the labeled points')
            if W0 is None:
                req(x[0][4] == case['sub'] and x[0][6] is None, 'at first: %r subspaces', x[0][4])
            else:
                req(x[0][4] == len(W0) and same(x[0][6], W0), 'does not start from its weights')
            p = [z for z in log if z[1] == 'prune']
            req(len(p) == (1 if o.prune else 0), 'pruned %d times', len(p))
            req(not p or p[0][2] is data.data and p[0][3] is clf and p[0][4] == .99, 'pruned with other arguments')
            if p:
                clf = p[0][5]
                req(o.clf is clf, 'the pruned model is not used')
            if case['pen'] > 0 and it <= case['penit']:
                t = it / case['penit']
                want = case['pen'] * (np.log1p((np.e - 1) * t) if case['log'] else t)
                req(abs(clf.penalty_term.penalty - want) < 1e-9 * case['pen'], 'penalty %r in iteration %d of %d', clf.penalty_term.penalty, it, case['penit'])
    return True
