"""Uninterpreted real functions with the axioms the proofs use (assumed mathematics)."""
import z3

from .core import Ctx, And, Forall, Implies, Real, Int, as_term, to_real, Or, Not

_sqrt = z3.Function('sqrt_', Real, Real)
_exp = z3.Function('exp_', Real, Real)
_log = z3.Function('log_', Real, Real)
_pow = z3.Function('pow_', Real, Real, Real)


def _once(key, mk):
    c = Ctx.cur
    if c.sub:
        c.assume(mk())
        return
    if key not in c.memo:
        c.memo[key] = True
        c.assume(mk())


def sqrt(t):
    t = to_real(as_term(t))
    r = _sqrt(t)
    Ctx.cur.assume(Implies(t >= 0, And(r >= 0, r * r == t)))
    _once('sqrt0', lambda: And(_sqrt(z3.RealVal(0)) == 0, _sqrt(z3.RealVal(1)) == 1))
    return r


def _explog_axioms():
    ax = []
    ax.append(Forall([Real], lambda x: And(_exp(x) > 0, _log(_exp(x)) == x), lambda x: [_exp(x)]))
    ax.append(Forall([Real], lambda y: Implies(y > 0, _exp(_log(y)) == y), lambda y: [_log(y)]))
    ax.append(Forall([Real, Real], lambda x, y: Implies(x < y, _exp(x) < _exp(y)),
                     lambda x, y: [z3.MultiPattern(_exp(x), _exp(y))]))
    ax.append(Forall([Real, Real], lambda x, y: Implies(And(x > 0, x < y), _log(x) < _log(y)),
                     lambda x, y: [z3.MultiPattern(_log(x), _log(y))]))
    ax.append(_exp(z3.RealVal(0)) == 1)
    ax.append(_log(z3.RealVal(1)) == 0)
    return And(ax)


def exp(t):
    _once('explog', _explog_axioms)
    return _exp(to_real(as_term(t)))


def log(t):
    _once('explog', _explog_axioms)
    return _log(to_real(as_term(t)))


def log1p(t):
    return log(1 + to_real(as_term(t)))


def expm1(t):
    return exp(t) - 1


def expit(t):
    """1 / (1 + exp(-t)): in (0, 1), > 1/2 iff t > 0"""
    t = to_real(as_term(t))
    e = exp(-t)
    r = z3.Function('expit', Real, Real)(t)
    Ctx.cur.assume(r * (1 + e) == 1, r > 0, r < 1, (r > z3.Q(1, 2)) == (t > 0), (r == z3.Q(1, 2)) == (t == 0))
    return r


def power(a, b):
    a, b = to_real(as_term(a)), to_real(as_term(b))
    if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 <= b.numerator_as_long() <= 8:
        r = z3.RealVal(1)
        for _ in range(b.numerator_as_long()):
            r = r * a
        return r
    r = _pow(a, b)
    Ctx.cur.assume(Implies(a > 0, r > 0), Implies(b == 0, r == 1), Implies(b == 1, r == a),
                   Implies(And(a > 0, a <= 1, b >= 0), r <= 1), Implies(And(a >= 1, b >= 0), r >= 1),
                   Implies(And(a > 0, a < 1, b > 0), r < 1))
    return r
