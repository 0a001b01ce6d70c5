"""Vocabulary shared by the contracts."""
import z3

from pyvc.core import (Ctx, EndPath, SymBool, SymNum, And, Bool, Exists, Forall, If, Implies, Int, Not, Or, Real, as_term,
                       ctx, symbool, symint, symreal, wrap, num_term, to_real)
from pyvc.arrays import Arr, Buf, dterm, dim_wrap, toarr
from pyvc.collections_ import SymDict, SymList, SymSet, as_seq
from pyvc.loops import LoopSpec
from pyvc.engine import Unit, cover


def priv(obj, cls, name):
    """a private attribute of the representation (missing: the representation changed, out of reach)"""
    k = '_%s__%s' % (cls, name)
    try:
        return object.__getattribute__(obj, k)
    except AttributeError:
        ctx().unsupported('the representation of %s has no field %s' % (cls, name))


def setpriv(obj, cls, name, v):
    object.__setattr__(obj, '_%s__%s' % (cls, name), v)


def forall(lo, hi, body, pats=None):
    """for all lo <= i < hi"""
    return Forall([Int], lambda i: Implies(And(i >= lo, i < hi), as_term(body(i))), pats)


def forall2(h1, h2, body, pats=None):
    return Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < h1, j >= 0, j < h2), as_term(body(i, j))), pats)


def size(base, lo=0):
    n = symint(base)
    ctx().assume(n.t >= lo)
    return n


def vec(base, n, kind='real'):
    return Arr.fresh(base, (n,), kind)


def mat(base, n, m, kind='real'):
    return Arr.fresh(base, (n, m), kind)


def swap(module, name, stub):
    """the module's global `name` (a component with its own contract) replaced by its contract, for this path"""
    if name not in vars(module):
        ctx().unsupported('%s does not use %s under this name' % (module.__name__, name))
    saved = vars(module)[name]
    setattr(module, name, stub)
    ctx().undo.append(lambda: setattr(module, name, saved))


def prove(name, t):
    ctx().prove(name, t)


def assume(*ts):
    ctx().assume(*ts)


def t_(x):
    return as_term(x)


def expect(exc, name, cond=True):
    """the driver caught an exception: it must be of this class"""
    ctx().prove(name, as_term(cond))


class Opq:
    """base of opaque components handed to the code (model, sampler, callback): its methods return arbitrary values"""
    __pvobject__ = True


def same_array(a, b):
    """equal shape and contents"""
    if a.ndim != b.ndim:
        return z3.BoolVal(False)
    ts = [dterm(x) == dterm(y) for x, y in zip(a.shape, b.shape)]
    ra, rb = a.reader(), b.reader()
    def cmp(x, y):
        from pyvc.core import coerce2
        if z3.is_bool(x) and z3.is_bool(y):
            return x == y
        p, q = coerce2(wrap(x), wrap(y))
        return p == q
    ts.append(Forall([Int] * a.ndim, lambda *ix: Implies(
        And([And(i >= 0, i < dterm(d)) for i, d in zip(ix, a.shape)]), cmp(ra(*ix), rb(*ix)))))
    return And(ts)


def mp(*ts):
    """several terms that together trigger an instantiation (None when one of them cannot be a trigger)"""
    from pyvc.core import usable_pattern
    return z3.MultiPattern(*ts) if all(usable_pattern(t, []) for t in ts) else None


_touch = z3.Function('touch', Bool, Bool)


def touch(t):
    """always true; puts the term t into the proof context (a handle for triggers)"""
    c = ctx()
    if 'touch' not in c.memo:
        c.memo['touch'] = True
        c.assume(Forall([Bool], lambda b: _touch(b), lambda b: [_touch(b)]))
    return _touch(t)


def mark(*ix):
    """always true; a handle on index terms for triggers"""
    c = ctx()
    f = z3.Function('mark%d' % len(ix), *([Int] * len(ix)), Bool)
    if ('mark', len(ix)) not in c.memo:
        c.memo['mark', len(ix)] = True
        c.assume(Forall([Int] * len(ix), lambda *i: f(*i), lambda *i: [f(*i)]))
    return f(*[as_term(i) for i in ix])


def each(inr, handle, body):
    """for every i with inr(i): body(i), instantiated on the terms handle(i, k)"""
    return Forall([Int, Int], lambda i, k: Implies(And(inr(i), touch(handle(i, k))), as_term(body(i))), lambda i, k: [handle(i, k)])


class Lemma:
    """A statement over the reals proved on its own (no fact of the path is used); `use` instantiates it, `over` assumes all
    instances over a range."""

    def __init__(self, name, n, body, sort=None):
        c = ctx()
        vs = [z3.Const('lm%d' % k, sort or Real) for k in range(n)]
        self.vs, self.body = vs, as_term(body(*vs))
        saved, c.facts = c.facts, []
        try:
            c.prove('lemma: ' + name, self.body)
            self.facts_added = c.facts
        finally:
            c.facts = saved

    def at(self, *ts):
        return z3.substitute(self.body, *zip(self.vs, [to_real(as_term(t)) for t in ts]))

    def use(self, *ts):
        ctx().assume(self.at(*ts))

    def over(self, lo, hi, terms, pats=None):
        ctx().assume(forall(lo, hi, lambda i: self.at(*terms(i)), pats))


def derive(name, goal, *hyps, general=()):
    """The goal proved from the given statements alone, each of them an obligation of the path (cut rule: keeps nonlinear
    reasoning apart from the quantified facts); the terms `general` are generalised to variables first."""
    c = ctx()
    hs = [as_term(h) for h in hyps]
    known = {f.get_id() for f in c.facts}
    for k, h in enumerate(hs):
        if h.get_id() not in known:
            c.prove('%s: premise %d' % (name, k + 1), h)
    f = lambda t: t
    if general:
        sub = [(as_term(t), c.const('gen', as_term(t).sort())) for t in general]
        f = lambda t: z3.substitute(t, *sub)
    saved, c.facts = c.facts, [f(h) for h in hs]
    try:
        c.prove(name, f(as_term(goal)))
    finally:
        c.facts = saved
    c.assume(as_term(goal))


def induct(name, lo, hi, P, pats=None):
    """Induction as a proof rule: P(lo) and, at an arbitrary k of the range, P(k) implies P(k + 1) are obligations; P holds on
    lo..hi."""
    c = ctx()
    lo, hi = as_term(lo), as_term(hi)
    c.prove(name + ': base', Implies(lo <= hi, P(lo)))
    k = c.const('ind', Int)
    saved = c.facts
    c.facts = list(saved) + [k >= lo, k < hi, P(k)]
    try:
        c.prove(name + ': step', P(z3.simplify(k + 1)))
    finally:
        c.facts = saved
    c.assume(forall(lo, hi + 1, P, pats))


def every(name, lo, hi, P, how=None, pats=None):
    """Generalisation as a proof rule: P(k) is an obligation at an arbitrary k of the range (`how` may establish lemmas for it),
    then P holds on the range."""
    c = ctx()
    k = c.const('any', Int)
    saved, memo = c.facts, {q: (v.copy() if isinstance(v, (list, set, dict)) else v) for q, v in c.memo.items()}
    c.facts = list(saved) + [k >= as_term(lo), k < as_term(hi)]
    try:
        if how is not None:
            how(k)
        c.prove(name, P(k))
    finally:
        c.facts = saved
        c.memo.clear()
        c.memo.update(memo)                  # what was established for k is established for k only
    c.assume(forall(as_term(lo), as_term(hi), P, pats))
