"""Contracts of the factorization losses, gradients and probabilities (C17)."""
from pyvc import funcs
from pyvc.reduce import link_sums, product_rule, reduce1, symprod, telescope_rule

from .common import *
from .explore import raised
from .factor import LIN
from .kernels import total
from .sampler import method, restub, restub1

UT = 'aideme.active_learning.factorization.utils'
PART = 'aideme.active_learning.factorization.partitioning.linear'

FUNCTIONS = {'C17': ['utils.pyx: log_sigmoid, compute_log_probas, compute_loss, compute_classification_loss, grad_weights (C types stripped)',
                     'LinearFactorizationLoss.compute_loss/compute_grad/__compute_margin/__compute_grad_weights/__compute_grad/next_batch and the batch iterator',
                     'LinearFactorizationLearner.predict/predict_proba/partial_proba/partial_predict/_get_loss',
                     'FactorizedLinearClassifier: probabilities, _grad_log_proba; LinearLoss; FactorizedLinearLearner.fit_and_loss']}
ASSUMPTIONS = {'C17': ['exp and log: inverse of each other, positive, monotone, exp(0)=1, exp(a+b)=exp(a)exp(b) (instances)',
                       'calculus: (log sigmoid)\' = 1 - sigmoid and the chain rule of a composition of linear maps, written in the contract; the derivative '
                       'is not taken by the verifier',
                       'finite sums and products by their recursion on the number of terms',
                       'Cython modules verified from their source with the C declarations stripped (cython_strip.py); C double as a real',
                       'fixed structures and partitions over three features and two subspaces (bounded); data, labels, weights symbolic and unbounded',
                       'scipy.optimize.minimize by contract']}


# ---------------------------------------------------------------- mathematics of the logistic function
def softplus(z):
    """log(1 + exp(z))"""
    return funcs.log(1 + funcs.exp(z))


def logsig(z):
    """log of the logistic function of z"""
    return -softplus(-z)


def softplus_facts(z):
    """log(1 + exp(z)) = z + log(1 + exp(-z)), from exp(a + b) = exp(a) exp(b) and exp(0) = 1"""
    z = z3.simplify(to_real(as_term(z)))
    e, em = funcs.exp(z), funcs.exp(z3.simplify(-z))
    assume(e * em == 1)                                              # exp(z + (-z)) = exp(0)
    l1, l2 = funcs.log(1 + em), funcs.log(1 + e)
    assume(funcs.exp(z + l1) == e * funcs.exp(l1), touch(funcs.log(funcs.exp(z + l1)) == 0), touch(funcs.exp(l2) == 0))
    prove('exponents of logarithms', And(funcs.exp(l1) == 1 + em, e > 0, em > 0))
    derive('softplus of the opposite: exponents', funcs.exp(z + l1) == 1 + e, funcs.exp(z + l1) == e * funcs.exp(l1), funcs.exp(l1) == 1 + em, e * em == 1,
           general=(funcs.exp(z + l1), funcs.exp(l1), e, em))
    prove('softplus of the opposite', z + l1 == l2)


def sigmoid_facts(z):
    """exp(logsig(z)) = sigmoid(z), logsig(z) < 0"""
    z = z3.simplify(to_real(as_term(z)))
    em = funcs.exp(z3.simplify(-z))
    l = funcs.log(1 + em)
    assume(funcs.exp(l) * funcs.exp(-l) == 1)
    s = funcs.expit(z)
    prove('exponent of softplus', And(funcs.exp(l) == 1 + em, em > 0))
    derive('exponent of the log-probability', funcs.exp(-l) == s, funcs.exp(l) * funcs.exp(-l) == 1, funcs.exp(l) == 1 + em, s * (1 + em) == 1, em > 0,
           general=(funcs.exp(l), funcs.exp(-l), s, em))
    assume(touch(funcs.log(funcs.exp(l)) == 0))
    prove('log-probabilities are negative', l > 0)


def at(r, *ix):
    return to_real(r.reader()(*ix))


def units_C17(E):
    us = []

    # ---------------------------------------------------------------- the kernels
    def d_logsig():
        c = ctx()
        U = E.load(UT)
        n = size('n')
        x = vec('x', n)
        x0 = x.copy()
        rx = x0.reader()
        r = toarr(U.log_sigmoid(x))
        prove('one value per margin', dterm(r.shape[0]) == n.t)
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        prove('log of the logistic function', at(r, i) == logsig(rx(i)))
        sigmoid_facts(rx(i))
        assume(touch(at(r, i) == 0))
        prove('its exponent is the logistic function', funcs.exp(logsig(rx(i))) == funcs.expit(rx(i)))
        prove('the margins are unchanged', same_array(x, x0))
        cover('values')

    def arr(L, *names):
        for n in names:
            if not isinstance(L[n], Arr):
                raise TypeError(n)
        return [L[n] for n in names]

    def ls_inv(L, t, g):
        res, x = arr(L, 'res', 'x')
        r, q = res.reader(), x.reader()
        return [('treated', forall(0, t, lambda j: to_real(r(j)) == logsig(q(j)), lambda j: [r(j)])),
                ('length', dterm(res.shape[0]) == dterm(x.shape[0]))]

    def ls_lemma(L, t, g):
        softplus_facts(L['x'].reader()(t))
        return []
    us.append(Unit(E, 'log_sigmoid', d_logsig, {'log_sigmoid:for#1': LoopSpec(inv=ls_inv, lemma=ls_lemma)}))

    # log-probability of a point: sum of the log-probabilities of its subspaces
    cell = {}

    def recursion(base, first, step):
        """F(i, 0) = first, F(i, k + 1) = step(F(i, k), i, k): a function defined by recursion, unfolded where needed"""
        c = ctx()
        F = c.func(base, Int, Int, Real)

        def unfold(i, k):
            assume(Implies(k >= 0, F(i, z3.simplify(k + 1)) == step(F(i, k), i, k)))
        assume(Forall([Int], lambda i: F(i, z3.IntVal(0)) == first, lambda i: [F(i, z3.IntVal(0))]))
        return F, unfold

    def d_logp():
        c = ctx()
        U = E.load(UT)
        n, K = size('n'), size('K')
        m = mat('m', n, K)
        m0 = m.copy()
        rm = m0.reader()
        S, unfold = recursion('S', z3.RealVal(0), lambda v, i, k: v + logsig(rm(i, k)))
        cell.clear()
        cell.update(S=S, unfold=unfold, m=rm, K=K.t)
        r = toarr(U.compute_log_probas(m))
        prove('one value per point', dterm(r.shape[0]) == n.t)
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        prove('sum of the logarithms of the subspace probabilities', at(r, i) == S(i, K.t))

        def how(k):
            unfold(i, k)
            sigmoid_facts(rm(i, k))
            a, b = S(i, k), logsig(rm(i, k))
            assume(funcs.exp(a + b) == funcs.exp(a) * funcs.exp(b))
            assume(touch(funcs.exp(S(i, z3.simplify(k + 1))) == 0))
        p = product_rule('product of the subspace probabilities', K, lambda k: funcs.exp(S(i, k)), lambda k: funcs.expit(rm(i, k)), how)
        prove('its exponent is the product of the subspace probabilities', funcs.exp(at(r, i)) == p)

        def neg(k):
            unfold(i, k)
            sigmoid_facts(rm(i, k))

        def step():
            k = c.const('ind', Int)
            saved = c.facts
            c.facts = list(saved) + [k >= 0, k < K.t, S(i, k) <= 0]
            try:
                neg(k)
                prove('log-probabilities are negative: step', S(i, z3.simplify(k + 1)) < 0)
            finally:
                c.facts = saved
            prove('log-probabilities are negative: base', S(i, z3.IntVal(0)) <= 0)
            assume(Implies(K.t >= 1, S(i, K.t) < 0), S(i, K.t) <= 0)           # induction
        step()
        prove('probabilities lie strictly between 0 and 1', Implies(K.t >= 1, And(at(r, i) < 0, funcs.exp(at(r, i)) > 0, funcs.exp(at(r, i)) < funcs.exp(z3.RealVal(0)))))
        prove('the margins are unchanged', same_array(m, m0))
        cover('values')

    def lp_common(L):
        lp, m = arr(L, 'log_probas', 'margin')
        q, rm, S = lp.reader(), m.reader(), cell['S']
        return lp, m, q, rm, S

    def lp_outer(L, t, g):
        lp, m, q, rm, S = lp_common(L)
        return [('treated', forall(0, t, lambda r: to_real(q(r)) == S(r, cell['K']), lambda r: [q(r)])),
                ('length', dterm(lp.shape[0]) == dterm(m.shape[0]))]

    def lp_inner(L, t, g):
        lp, m, q, rm, S = lp_common(L)
        i = t_(L['i'])
        return [('treated', forall(0, i, lambda r: to_real(q(r)) == S(r, cell['K']), lambda r: [q(r)])),
                ('length', dterm(lp.shape[0]) == dterm(m.shape[0])),
                ('in progress', to_real(q(i)) == S(i, t))]

    def lp_lemma(L, t, g):
        i = t_(L['i'])
        cell['unfold'](i, t)
        softplus_facts(cell['m'](i, t))
        return []
    us.append(Unit(E, 'compute_log_probas', d_logp, {'compute_log_probas:for#1': LoopSpec(inv=lp_outer), 'compute_log_probas:for#2': LoopSpec(inv=lp_inner, lemma=lp_lemma)}))

    # the average negative log-likelihood
    def likelihood(lp, y):
        """loss of a point with log-probability lp: - y lp for a positive label, - log(1 - exp(lp)) otherwise"""
        return If(y > 0, -y * lp, -funcs.log(1 - funcs.exp(lp)))

    def d_nll(which):
        def drv():
            c = ctx()
            U = E.load(UT)
            n = size('n', 1)
            y = vec('y', n)
            ry = y.copy().reader()
            lp = vec('lp', n)
            rl = lp.copy().reader()
            assume(forall(0, n.t, lambda i: rl(i) < 0, lambda i: [rl(i)]))          # log-probabilities, by the contract of compute_log_probas
            cell.clear()
            T = c.func('T', Int, Real)
            assume(T(z3.IntVal(0)) == 0)
            cell.update(T=T, lp=rl, y=ry, unfold=lambda k: assume(Implies(k >= 0, T(z3.simplify(k + 1)) == T(k) + likelihood(rl(k), ry(k)))))
            if which == 'compute_loss':
                m = mat('m', n, size('K', 1))
                asked = []

                def contract(q):
                    asked.append(q)
                    return lp
                swap(U, 'compute_log_probas', contract)
                v = U.compute_loss(m, y)
                prove('log-probabilities of the given margins', z3.BoolVal(len(asked) == 1 and asked[0] is m))
            else:
                v = U.compute_classification_loss(lp, y)
            s, = telescope_rule('sum of the losses of the points', n, lambda k: -T(k), (1, lambda k: likelihood(rl(k), ry(k))), how=lambda k: cell['unfold'](k))
            prove('the loss is the average negative log-likelihood', to_real(t_(v)) == s / z3.ToReal(n.t))
            cover('loss')
        return drv

    def nll_inv(L, t, g):
        return [('so far', to_real(t_(L['loss'])) == cell['T'](t))]

    def nll_lemma(L, t, g):
        cell['unfold'](t)
        x = z3.simplify(cell['lp'](t))
        assume(touch(funcs.exp(x) == 0))
        return [touch(cell['lp'](t) == 0)]
    for w in ('compute_loss', 'compute_classification_loss'):
        us.append(Unit(E, w, d_nll(w), {w + ':for#1': LoopSpec(inv=nll_inv, lemma=nll_lemma, types={'loss': lambda c: SymNum(c.const('loss', Real))})}))

    def d_gw():
        c = ctx()
        U = E.load(UT)
        n = size('n')
        x, y = vec('x', n), vec('y', n)
        rx, ry = x.copy().reader(), y.copy().reader()
        assume(forall(0, n.t, lambda i: rx(i) < 0, lambda i: [rx(i)]))              # log-probabilities
        x0 = x.copy()
        r = toarr(U.grad_weights(x, y))
        prove('one coefficient per point', dterm(r.shape[0]) == n.t)
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        v, y_ = at(r, i), ry(i)
        p, q = funcs.exp(rx(i)), funcs.exp(-rx(i))
        assume(p * q == 1, touch(v == 0))
        prove('coefficient of a point: the kernel formula', v == If(y_ > 0, -y_, 1 / (q - 1)))
        prove('the probability is between 0 and 1', And(p > 0, p < funcs.exp(z3.RealVal(0))))
        assume(funcs.exp(z3.RealVal(0)) == 1)
        derive('odds', 1 / (q - 1) == p / (1 - p), p * q == 1, p > 0, p < 1, general=(p, q))
        prove('derivative of the loss of a point by its log-probability', v == If(y_ > 0, -y_, p / (1 - p)))
        prove('the log-probabilities are unchanged', same_array(x, x0))

    def gw_inv(L, t, g):
        res, x, y = arr(L, 'res', 'x', 'y')
        r, q, ry = res.reader(), x.reader(), y.reader()
        return [('treated', forall(0, t, lambda j: to_real(r(j)) == If(ry(j) > 0, -ry(j), 1 / (funcs.exp(-q(j)) - 1)), lambda j: [r(j)])),
                ('length', dterm(res.shape[0]) == dterm(x.shape[0]))]

    def gw_lemma(L, t, g):
        q = L['x'].reader()(t)
        assume(touch(q == 0), touch(funcs.exp(-q) == 0), funcs.exp(z3.RealVal(0)) == 1)
        return []
    us.append(Unit(E, 'grad_weights', d_gw, {'grad_weights:for#1': LoopSpec(inv=gw_inv, lemma=gw_lemma)}))

    # ---------------------------------------------------------------- loss and gradient of the factorized learner
    MASK = [[0, 2], [1]]

    class Penalty(Opq):
        def __init__(self):
            self._pv_got = []

        def loss(self, w):
            self._pv_got.append(('loss', toarr(w).copy()))
            self._pv_loss = symreal('penalty')
            return self._pv_loss

        def grad(self, w):
            w = toarr(w)
            self._pv_got.append(('grad', w.copy()))
            self._pv_grad = mat('pgrad', *w.shape)
            return self._pv_grad

    def problem(mask, cube, bias, pen):
        c = ctx()
        M = E.load(LIN)
        n = size('n', 1)
        D, K = (3, len(MASK)) if mask else (size('D', 1), size('K', 1))
        X = Arr.fresh('X', (n, D, K), 'real') if cube else mat('X', n, D)
        y = vec('y', n)
        ry = y.reader()
        assume(forall(0, n.t, lambda i: Or(ry(i) == 0, ry(i) == 1), lambda i: [ry(i)]))
        P = Penalty() if pen else None
        o = M.LinearFactorizationLoss(X, y, add_bias=bias, penalty_term=P, factorization=[list(g) for g in MASK] if mask else None)
        W, B = c.func('W', Int, Int, Real), c.func('B', Int, Real)
        dt = t_(D)
        if mask:
            pl = [(k, d) for k, g in enumerate(MASK) for d in sorted(g) + ([3] if bias else [])]
            w = vec('w', len(pl))
            rw = w.copy().reader()
            val = {q: rw(z3.IntVal(i)) for i, q in enumerate(pl)}

            def W(k, d):
                r = z3.RealVal(0)
                for (a, b), v in val.items():
                    if b < 3:
                        r = If(And(k == a, d == b), v, r)
                return r
            B = lambda k: If(k == 0, val[0, 3], val[1, 3])
        else:
            wd = wrap(z3.simplify(dt + (1 if bias else 0)))
            w = Arr.make((K, wd), 'real', lambda k, d: If(d < dt, W(k, d), B(k)) if bias else W(k, d))
        return M, o, X, y, w, W, B, n, D, K, P

    def margin_of(X, W, B, D, cube, bias):
        rx = X.reader()

        def f(i, k):
            m = total(lambda j: (rx(i, j, k) if cube else rx(i, j)) * W(k, j), D)
            return m + B(k) if bias else m
        return f

    def weights_only(P, kind, W, D, K):
        q = [w for k, w in P._pv_got if k == kind]
        return And(z3.BoolVal(len(q) == 1), And(dterm(q[0].shape[0]) == t_(K), dterm(q[0].shape[1]) == t_(D),
                   forall2(t_(K), t_(D), lambda k, j: to_real(q[0].reader()(k, j)) == W(k, j)))) if q else z3.BoolVal(False)

    def options():
        c = ctx()
        return c.choose(2) == 1, c.choose(2) == 1, c.choose(2) == 1, c.choose(2) == 1

    def d_loss():
        c = ctx()
        mask, cube, bias, pen = options()
        M, o, X, y, w, W, B, n, D, K, P = problem(mask, cube, bias, pen)
        U = E.load(UT)
        asked, v = [], symreal('nll')

        def contract(m, q):
            asked.append((toarr(m), q))
            return v
        swap(U, 'compute_loss', contract)
        w0 = w.copy()
        r = o.compute_loss(w)
        prove('one likelihood', z3.BoolVal(len(asked) == 1))
        m, q = asked[0]
        prove('of the given labels', z3.BoolVal(q is y))
        prove('a margin per point and subspace', And(dterm(m.shape[0]) == n.t, dterm(m.shape[1]) == t_(K)))
        i, k = c.const('i', Int), c.const('k', Int)
        assume(i >= 0, i < n.t, k >= 0, k < t_(K))
        f = margin_of(X, W, B, D, cube, bias)
        a, b = to_real(m.reader()(i, k)), f(i, k)
        link_sums()
        prove('margins of the weights and the bias', a == b)
        prove('the loss adds the penalty', to_real(t_(r)) == v.t + (P._pv_loss.t if pen else 0))
        if pen:
            prove('the penalty of the weights without the bias', weights_only(P, 'loss', W, D, K))
        prove('the parameters are unchanged', same_array(w, w0))
    us.append(Unit(E, 'LinearFactorizationLoss.compute_loss', d_loss))

    def d_margin():
        c = ctx()
        mask, cube, bias, pen = False, c.choose(2) == 1, c.choose(2) == 1, False
        M, o, X, y, w, W, B, n, D, K, P = problem(mask, cube, bias, pen)
        wm = Arr.make((K, D), 'real', lambda k, j: W(k, j))
        b = Arr.make((K,), 'real', lambda k: B(k)) if bias else None
        X0, w0 = X.copy(), wm.copy()
        m = toarr(method(o, 'compute_margin')(X, b, wm))
        prove('a margin per point and subspace', And(dterm(m.shape[0]) == n.t, dterm(m.shape[1]) == t_(K)))
        i, k = c.const('i', Int), c.const('k', Int)
        assume(i >= 0, i < n.t, k >= 0, k < t_(K))
        u, v = to_real(m.reader()(i, k)), margin_of(X, W, B, D, cube, bias)(i, k)
        link_sums()
        prove('margins of the weights and the bias', u == v)
        prove('nothing else changes', And(same_array(X, X0), same_array(wm, w0)))
    us.append(Unit(E, 'LinearFactorizationLoss.__compute_margin', d_margin))

    def d_coef():
        c = ctx()
        M = E.load(LIN)
        n, K = size('n', 1), size('K', 1)
        m, y = mat('m', n, K), vec('y', n)
        ry, rm = y.reader(), m.copy().reader()
        assume(forall(0, n.t, lambda i: Or(ry(i) == 0, ry(i) == 1), lambda i: [ry(i)]))
        o = M.LinearFactorizationLoss(mat('X', n, size('D', 1)), y)
        m0, y0 = m.copy(), y.copy()
        g = toarr(method(o, 'compute_grad_weights')(m, y))
        i, k = c.const('i', Int), c.const('k', Int)
        assume(i >= 0, i < n.t, k >= 0, k < K.t)
        prove('a coefficient per point and subspace', And(dterm(g.shape[0]) == n.t, dterm(g.shape[1]) == K.t))
        P = symprod(lambda q: funcs.expit(rm(i, q)), K.t, 'real')
        val = at(g, i, k)
        link_sums()
        sg = funcs.expit(rm(i, k))
        N = z3.ToReal(n.t)
        prove('the probability of a point is less than one', And(P > 0, P < 1))
        prove('coefficients', val == (1 - sg) * (If(ry(i) > 0, z3.RealVal(-1), P / (1 - P)) / N))
        # the same by the rules of calculus: d log sigmoid(m) / dm = exp(-m) / (1 + exp(-m)); d(-y lp) = -y dlp;
        # d(-log(1 - exp(lp))) = exp(lp) / (1 - exp(lp)) dlp; lp = log P, the sum of the log-probabilities
        em = funcs.exp(-rm(i, k))
        derive('derivative of the log-probability', em / (1 + em) == 1 - sg, sg * (1 + em) == 1, em > 0, general=(em, sg))
        lp = funcs.log(P)
        assume(touch(lp == 0))
        e = funcs.exp(lp)
        prove('the probability is the exponent of the log-probability', e == P)
        chain = If(ry(i) > 0, -ry(i), e / (1 - e)) * (em / (1 + em)) / N
        a, b2, d2 = 1 - sg, em / (1 + em), P / (1 - P)
        prove('labels', Or(ry(i) == 0, ry(i) == 1))
        derive('coefficients are the derivative of the average loss by the margin', val == chain,
               val == (1 - sg) * (If(ry(i) > 0, z3.RealVal(-1), P / (1 - P)) / N), em / (1 + em) == 1 - sg, e == P, Or(ry(i) == 0, ry(i) == 1), N > 0,
               general=(val, em / (1 + em), sg, e, P, ry(i), N))
        prove('the margins and labels are unchanged', And(same_array(m, m0), same_array(y, y0)))
        cover('coefficients')
    us.append(Unit(E, 'LinearFactorizationLoss.__compute_grad_weights', d_coef))

    def d_chain():
        """from the derivatives by the margins to those by the weights"""
        c = ctx()
        mask, cube, bias, pen = False, c.choose(2) == 1, c.choose(2) == 1, False
        M, o, X, y, w, W, B, n, D, K, P = problem(mask, cube, bias, pen)
        g = mat('g', n, K)
        rx, rg, X0, g0 = X.copy().reader(), g.copy().reader(), X.copy(), g.copy()
        gb, gw = method(o, 'compute_grad')(X, g)
        gw = toarr(gw)
        k, j = c.const('k', Int), c.const('j', Int)
        assume(k >= 0, k < t_(K), j >= 0, j < t_(D))
        prove('an entry per weight', And(dterm(gw.shape[0]) == t_(K), dterm(gw.shape[1]) == t_(D)))
        u, v = at(gw, k, j), total(lambda i: rg(i, k) * (rx(i, j, k) if cube else rx(i, j)), n)
        ub, vb = (at(toarr(gb), k), total(lambda i: rg(i, k), n)) if bias else (z3.RealVal(0), z3.RealVal(0))
        link_sums()
        prove('derivative by a weight: the coordinate of each point times its derivative by the margin', u == v)
        prove('derivative by the bias', ub == vb)
        prove('no bias', z3.BoolVal(bias or gb is None))
        prove('nothing else changes', And(same_array(X, X0), same_array(g, g0)))
    us.append(Unit(E, 'LinearFactorizationLoss.__compute_grad', d_chain))

    def d_grad():
        """the gradient, over the contracts above"""
        c = ctx()
        mask, cube, bias, pen = options()
        batch = c.choose(2) == 1
        M, o, X, y, w, W, B, n, D, K, P = problem(mask, cube, bias, pen)
        X0, y0, w0 = X.copy(), y.copy(), w.copy()
        rx, ry, nb = X0.reader(), y0.reader(), n
        if batch:
            nb = size('batch', 1)
            o._batch_size = nb
            idx = vec('idx', nb, 'int')
            ri = idx.copy().reader()
            assume(forall(0, nb.t, lambda i: And(ri(i) >= 0, ri(i) < n.t), lambda i: [ri(i)]))
            restub1(o, 'get_next_batch', lambda: idx)
        dt, kt = t_(D), t_(K)
        m, g, gw, gb = mat('m', nb, K), mat('g', nb, K), mat('gw', K, D), vec('gb', K) if bias else None
        gw0 = gw.copy()
        log = []

        def c_margin(X_, b_, w_):
            log.append('margin')
            X_, w_ = toarr(X_), toarr(w_)
            r = X_.reader()
            src = (lambda i, *q: rx(ri(i), *q)) if batch else rx
            prove('margins of the data' + (' of the batch' if batch else ''), And(dterm(X_.shape[0]) == nb.t, Forall([Int] * X.ndim, lambda *q: Implies(
                And([And(v >= 0, v < dterm(s_)) for v, s_ in zip(q, X_.shape)]), r(*q) == src(*q)))))
            prove('by the weights', And(dterm(w_.shape[0]) == kt, dterm(w_.shape[1]) == dt, forall2(kt, dt, lambda k, j: to_real(w_.reader()(k, j)) == W(k, j))))
            prove('and the bias', forall(0, kt, lambda k: to_real(toarr(b_).reader()(k)) == B(k)) if bias else z3.BoolVal(b_ is None))
            return m

        def c_coef(m_, y_):
            log.append('coef')
            r = toarr(y_).reader()
            prove('coefficients of these margins', z3.BoolVal(m_ is m))
            prove('with the labels of the same points', And(dterm(toarr(y_).shape[0]) == nb.t, forall(0, nb.t, lambda i: r(i) == (ry(ri(i)) if batch else ry(i)))))
            return g

        def c_grad(X_, g_):
            log.append('grad')
            X_ = toarr(X_)
            r = X_.reader()
            src = (lambda i, *q: rx(ri(i), *q)) if batch else rx
            prove('derivatives of these coefficients', z3.BoolVal(g_ is g))
            prove('with the same points', And(dterm(X_.shape[0]) == nb.t, Forall([Int] * X.ndim, lambda *q: Implies(
                And([And(v >= 0, v < dterm(s_)) for v, s_ in zip(q, X_.shape)]), r(*q) == src(*q)))))
            return gb, gw
        restub(o, 'compute_margin', c_margin)
        restub(o, 'compute_grad_weights', c_coef)
        restub(o, 'compute_grad', c_grad)
        G = toarr(o.compute_grad(w))
        prove('each step once', z3.BoolVal(log == ['margin', 'coef', 'grad']))
        prove('the data and the parameters are unchanged', And(same_array(X, X0), same_array(y, y0), same_array(w, w0)))
        if pen:
            prove('the penalty of the weights without the bias', weights_only(P, 'grad', W, D, K))

        def entry(k, j, is_bias):
            if is_bias:
                return to_real(gb.reader()(k))
            return gw0.reader()(k, j) + (to_real(P._pv_grad.reader()(k, j)) if pen else 0)
        if mask:
            pl = [(k, d) for k, g_ in enumerate(MASK) for d in sorted(g_) + ([3] if bias else [])]
            prove('one entry per free parameter', z3.BoolVal(tuple(G.shape) == (len(pl),)))
            for a, (k, j) in enumerate(pl):
                prove('the gradient at the free parameters', at(G, z3.IntVal(a)) == entry(z3.IntVal(k), z3.IntVal(j), j == 3))
        else:
            prove('one entry per parameter', And(dterm(G.shape[0]) == kt, dterm(G.shape[1]) == z3.simplify(dt + (1 if bias else 0))))
            k, j = c.const('k', Int), c.const('j', Int)
            assume(k >= 0, k < kt, j >= 0, j < dt)
            prove('the gradient: weights and penalty', at(G, k, j) == entry(k, j, False))
            if bias:
                prove('the gradient: bias', at(G, k, dt) == entry(k, dt, True))
        cover('gradient')
    us.append(Unit(E, 'LinearFactorizationLoss.compute_grad', d_grad))

    def d_batches():
        c = ctx()
        M = E.load(LIN)
        n, b = size('n', 1), symint('batch')
        X, y = mat('X', n, size('D', 1)), vec('y', n)
        o = M.LinearFactorizationLoss(X, y)
        for nm in ('_batch_size', '_offsets', '_cur_pos'):
            if not hasattr(o, nm):
                c.unsupported('the representation of LinearFactorizationLoss has no %s' % nm)
        what = c.choose(2)
        if what == 0:
            given = None if c.choose(2) == 0 else b
            r, err = raised(lambda: o.set_batch_size(given), ValueError)
            if given is None:
                prove('all the data', z3.BoolVal(err is None and o._batch_size is None))
                return
            prove('exactly sizes that are not positive are rejected', z3.BoolVal(err is not None) == (b.t <= 0))
            if err is not None:
                return
            if o._batch_size is None:
                prove('a batch of all the data is no batch', b.t >= n.t)
                return
            prove('the batch size', And(t_(o._batch_size) == b.t, b.t < n.t))
        else:
            # an arbitrary moment
            assume(b.t >= 1, b.t < n.t)
            o._batch_size = b
            o._offsets = vec('offs', n, 'int')
            pos = symint('pos')
            assume(pos.t >= 0)
            o._cur_pos = pos
            old = o._offsets.copy()
        sh = []
        from pyvc import npstub as N
        rnd = M.np.random
        off = o._offsets.reader()
        if what == 0:
            inv = lambda off: forall(0, n.t, lambda i: And(off(i) >= 0, off(i) < n.t), lambda i: [off(i)])
            prove('the order holds points of the data', inv(off))
            prove('and starts at the beginning', t_(o._cur_pos) == 0)
            return
        assume(forall(0, n.t, lambda i: And(off(i) >= 0, off(i) < n.t), lambda i: [off(i)]))
        p0 = pos.t
        r = toarr(o.get_next_batch())
        new = o._offsets.reader()
        start = If(p0 >= n.t, 0, p0)
        stop = If(start + b.t > n.t, n.t, start + b.t)
        prove('the next points of the order, from its beginning when it is used up', And(dterm(r.shape[0]) == stop - start, forall(0, dterm(r.shape[0]), lambda i: r.reader()(i) == new(start + i))))
        prove('a new order exactly when the old one is used up', Implies(p0 < n.t, same_array(o._offsets, old)))
        prove('the next batch follows', t_(o._cur_pos) == start + b.t)
        prove('never an empty batch', stop > start)
        prove('the order holds points of the data', forall(0, n.t, lambda i: And(new(i) >= 0, new(i) < n.t)))
    us.append(Unit(E, 'LinearFactorizationLoss: batches', d_batches))

    # ---------------------------------------------------------------- predictions
    def d_predict():
        c = ctx()
        cube, bias = c.choose(2) == 1, c.choose(2) == 1
        M, U = E.load(LIN), E.load(UT)
        n, D, K = size('n', 1), size('D', 1), size('K', 1)
        X = Arr.fresh('X', (n, D, K), 'real') if cube else mat('X', n, D)
        rx, X0 = X.copy().reader(), X.copy()
        o = M.LinearFactorizationLearner(Opq(), None, add_bias=bias)
        W, B = c.func('W', Int, Int, Real), c.func('B', Int, Real)
        o._weights = Arr.make((K, D), 'real', lambda k, d: W(k, d))
        o._bias = Arr.make((K,), 'real', lambda k: B(k)) if bias else None
        lp = vec('lp', n)
        rl = lp.copy().reader()
        asked = []

        def contract(m):
            asked.append(toarr(m))
            return lp
        swap(U, 'compute_log_probas', contract)
        i, k = c.const('i', Int), c.const('k', Int)
        assume(i >= 0, i < n.t, k >= 0, k < K.t)
        mg = total(lambda j: (rx(i, j, k) if cube else rx(i, j)) * W(k, j), D) + (B(k) if bias else 0)

        def margins(m):
            u = to_real(m.reader()(i, k))
            link_sums()
            prove('a margin per point and subspace', And(dterm(m.shape[0]) == n.t, dterm(m.shape[1]) == K.t))
            prove('margins of the weights and the bias', u == mg)
        what = c.choose(4)
        if what == 0:
            p = toarr(o.predict_proba(X))
            prove('one set of margins', z3.BoolVal(len(asked) == 1))
            margins(asked[0])
            prove('the exponent of the log-probability', And(dterm(p.shape[0]) == n.t, at(p, i) == funcs.exp(rl(i))))
        elif what == 1:
            p = toarr(o.predict(X))
            prove('one set of margins', z3.BoolVal(len(asked) == 1))
            margins(asked[0])
            assume(touch(funcs.exp(rl(i)) == 0), touch(funcs.log(funcs.exp(rl(i))) == 0), touch(funcs.exp(funcs.log(z3.Q(1, 2))) == 0))
            prove('positive exactly when the probability exceeds one half', And(dterm(p.shape[0]) == n.t, at(p, i) == If(funcs.exp(rl(i)) > z3.Q(1, 2), z3.RealVal(1), z3.RealVal(0))))
        else:
            p = toarr(o.partial_proba(X) if what == 2 else o.partial_predict(X))
            v = at(p, i, k)
            sg = funcs.expit(mg)
            link_sums()
            prove('a value per point and subspace', And(dterm(p.shape[0]) == n.t, dterm(p.shape[1]) == K.t))
            prove('the subspace probability is the logistic function of the margin' if what == 2 else 'positive exactly when the subspace probability exceeds one half',
                  v == (sg if what == 2 else If(sg > z3.Q(1, 2), z3.RealVal(1), z3.RealVal(0))))
        prove('the points and the parameters are unchanged', And(same_array(X, X0), forall2(K.t, D.t, lambda a, b: o._weights.reader()(a, b) == W(a, b)),
                                                                forall(0, K.t, lambda a: o._bias.reader()(a) == B(a)) if bias else z3.BoolVal(o._bias is None)))
    us.append(Unit(E, 'LinearFactorizationLearner: probabilities', d_predict))

    def d_logistic():
        """strictly increasing, one half at zero"""
        c = ctx()
        M = E.load(LIN)
        a, b = c.const('a', Real), c.const('b', Real)
        assume(a < b)
        o = M.LinearFactorizationLearner(Opq(), None, add_bias=False)
        m = Arr.make((1, 2), 'real', lambda i, k: If(k == 0, a, b))
        restub1(o, '_margin', lambda X: m)
        p = toarr(o.partial_proba(mat('X', 1, 1)))
        u, v = at(p, z3.IntVal(0), z3.IntVal(0)), at(p, z3.IntVal(0), z3.IntVal(1))
        sa, sb, ea, eb = funcs.expit(a), funcs.expit(b), funcs.exp(-a), funcs.exp(-b)
        prove('logistic values', And(u == sa, v == sb, ea > eb, eb > 0))
        derive('strictly increasing', sa < sb, sa * (1 + ea) == 1, sb * (1 + eb) == 1, ea > eb, eb > 0, general=(sa, sb, ea, eb))
        prove('one half at zero', And((u == z3.Q(1, 2)) == (a == 0), (u > z3.Q(1, 2)) == (a > 0)))
    us.append(Unit(E, 'subspace probabilities: shape of the function', d_logistic))

    def d_getloss():
        c = ctx()
        M = E.load(LIN)
        bias = c.choose(2) == 1
        P = Penalty()
        o = M.LinearFactorizationLearner(Opq(), P, add_bias=bias)
        X, y = mat('X', size('n', 1), 3), None
        y = vec('y', X.shape[0])
        f = [[0, 2], [1]] if c.choose(2) else None
        l = o._get_loss(X, y, f)
        prove('the loss of the training data with the options of the learner', z3.BoolVal(type(l) is M.LinearFactorizationLoss and l.X is X and l.y is y and l.add_bias == bias and l.penalty_term is P and (l.factorization is None) == (f is None)))
    us.append(Unit(E, 'LinearFactorizationLearner._get_loss', d_getloss))

    # ---------------------------------------------------------------- the classifier of a partition
    PARTS = [[[0], [1, 2]], [[2, 0], [1]], [[0, 1, 2]], [[1], [0], [2]]]

    def part_problem():
        c = ctx()
        M, U = E.load(PART), E.load(UT)
        parts = PARTS[c.choose(len(PARTS))]
        dim = 3 + len(parts)
        n = size('n', 1)
        X, w = mat('X', n, 3), vec('w', dim)
        o = M.FactorizedLinearClassifier([list(p) for p in parts], w)
        rw, rx = w.copy().reader(), X.copy().reader()
        pos, lay = 0, []
        for p in parts:
            lay.append((pos, p))
            pos += 1 + len(p)

        def margin(i, s):
            b, p = lay[s]
            m = rw(z3.IntVal(b))
            for q, f in enumerate(p):
                m = m + rx(i, z3.IntVal(f)) * rw(z3.IntVal(b + 1 + q))
            return m
        return M, U, parts, n, X, w, o, rx, rw, lay, margin, dim

    def d_part_log():
        c = ctx()
        M, U, parts, n, X, w, o, rx, rw, lay, margin, dim = part_problem()
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        LS = c.func('LS', Real, Real)
        asked = []

        def contract(m):
            r = toarr(m).copy().reader()
            asked.append(m)
            return Arr.make((toarr(m).shape[0],), 'real', lambda q: LS(to_real(r(q))))
        swap(U, 'log_sigmoid', contract)
        what = c.choose(3)
        if what == 0:
            v = at(toarr(o._log_proba(X)), i)
        elif what == 1:
            v = at(toarr(o.predict_proba(X)), i)
        else:
            v = at(toarr(o.predict(X)), i)
        s = sum((LS(z3.simplify(margin(i, k))) for k in range(1, len(parts))), LS(z3.simplify(margin(i, 0))))
        for k in range(len(parts)):
            prove('margin of a part', at(toarr(asked[k]), i) == margin(i, k))
        if what == 0:
            prove('sum of the log-probabilities of the parts', v == s)
        elif what == 1:
            prove('product of the probabilities of the parts', v == funcs.exp(s))
        else:
            assume(touch(funcs.exp(s) == 0), touch(funcs.log(funcs.exp(s)) == 0), touch(funcs.exp(funcs.log(z3.Q(1, 2))) == 0))
            prove('positive exactly when the probability exceeds one half', v == If(funcs.exp(s) > z3.Q(1, 2), z3.RealVal(1), z3.RealVal(0)))
        prove('one margin per part', z3.BoolVal(len(asked) == len(parts)))
    us.append(Unit(E, 'FactorizedLinearClassifier: probabilities', d_part_log))

    def d_part_grad():
        c = ctx()
        M, U, parts, n, X, w, o, rx, rw, lay, margin, dim = part_problem()
        i = c.const('i', Int)
        assume(i >= 0, i < n.t)
        w0 = w.copy()
        G = toarr(o._grad_log_proba(X))
        prove('a row per parameter, a column per point', And(z3.BoolVal(G.shape[0] == dim), dterm(G.shape[1]) == n.t))
        for s, (b, p) in enumerate(lay):
            sg = funcs.expit(margin(i, s))
            prove('derivative of the log-probability by a bias', at(G, z3.IntVal(b), i) == 1 - sg)
            for q, f in enumerate(p):
                prove('derivative of the log-probability by a weight', at(G, z3.IntVal(b + 1 + q), i) == rx(i, z3.IntVal(f)) * (1 - sg))
        prove('the parameters are unchanged', same_array(o.weights, w0))
    us.append(Unit(E, 'FactorizedLinearClassifier._grad_log_proba', d_part_grad))

    def d_part_loss():
        c = ctx()
        M, U, parts, n, X, w, o, rx, rw, lay, margin, dim = part_problem()
        y = vec('y', n)
        l = M.LinearLoss(X, y, o)
        prove('starts from the given parameters', same_array(l.x0, w))
        l.x0 += 1
        prove('a copy of them', forall(0, dim, lambda q: w.reader()(q) == rw(q)))
        nw, lp, gw = vec('nw', dim), vec('lp', n), vec('gw', n)
        gm = mat('gm', dim, n)
        v = symreal('nll')
        log = []

        def c_lp(Q):
            log.append(('lp', Q is X and o.weights is nw))
            return lp

        def c_gm(Q):
            log.append(('gm', Q is X and o.weights is nw))
            return gm
        restub1(o, '_log_proba', c_lp)
        restub1(o, '_grad_log_proba', c_gm)
        swap(U, 'compute_classification_loss', lambda a, b: (log.append(('nll', a is lp and b is y)), v)[1])
        swap(U, 'grad_weights', lambda a, b: (log.append(('gw', a is lp and b is y)), gw)[1])
        rg, rc = gm.copy().reader(), gw.copy().reader()
        loss, grad = l(nw)
        prove('each of the given parameters, data and labels', z3.BoolVal(all(q for _, q in log) and {k for k, _ in log} == {'lp', 'gm', 'nll', 'gw'}))
        prove('the average negative log-likelihood', t_(loss) == v.t)
        g = toarr(grad)
        k = c.const('k', Int)
        assume(k >= 0, k < dim)
        val, s = at(g, k), total(lambda i: rg(k, i) * rc(i), n)
        link_sums()
        prove('one entry per parameter', dterm(g.shape[0]) == dim)
        prove('the gradient: average over the points', val == s / z3.ToReal(n.t))
    us.append(Unit(E, 'LinearLoss', d_part_loss))

    def d_part_fit():
        """fit_and_loss: the result of the optimizer on this loss"""
        c = ctx()
        M = E.load(PART)
        parts = PARTS[c.choose(len(PARTS))]
        n = size('n', 1)
        X, y = mat('X', n, 3), vec('y', n)
        given = c.choose(2) == 1
        dim = 3 + len(parts)
        w = vec('w', dim) if given else None
        got = []

        class Res(Opq):
            pass

        def minimize(fun, x0, jac=None, method=None, options=None):
            r = Res()
            r.x, r.fun, r.success = vec('x', dim), symreal('fun'), True
            got.append((fun, toarr(x0), jac, method, options, r))
            return r
        so = type('so', (), {})()
        so.minimize = minimize
        sp = type('sp', (), {})()
        sp.optimize = so
        swap(M, 'scipy', sp)
        l = M.FactorizedLinearLearner('CG', 0.25, 7)
        q, loss = l.fit_and_loss(X, y, [list(p) for p in parts], w)
        prove('one optimisation', z3.BoolVal(len(got) == 1))
        fun, x0, jac, meth, opts, r = got[0]
        prove('of the loss of the data with its gradient', z3.BoolVal(type(fun) is M.LinearLoss and fun.X is X and fun.y is y and fun.fact_clf is q and jac is True))
        prove('with the configured method and options', z3.BoolVal(meth == 'CG' and dict(opts) == {'gtol': 0.25, 'maxiter': 7}))
        prove('from the given parameters or zeros', same_array(x0, w) if given else And(z3.BoolVal(tuple(x0.shape) == (dim,)), And([at(x0, z3.IntVal(a)) == 0 for a in range(dim)])))
        prove('the result', And(z3.BoolVal(q.weights is r.x and q.partition == parts), t_(loss) == r.fun.t))
    us.append(Unit(E, 'FactorizedLinearLearner.fit_and_loss', d_part_fit))
    return us


def units(E, prop):
    return globals()['units_' + prop](E)
