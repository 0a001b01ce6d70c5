"""pyvc core: path exploration by re-execution, obligations, symbolic scalars.

The verified code is executed by CPython itself on symbolic values.  Every branch on a symbolic truth value forks the
path (explored by re-execution from a decision prefix); loops are cut with invariants (loops.py); every obligation is
sent to z3 (cvc5 as second back end) under the complete path condition.
"""
import itertools
import math
import time
from fractions import Fraction

import z3

z3.set_param('auto_config', False)
z3.set_param('smt.mbqi', False)
z3.set_param('smt.random_seed', 0)
z3.set_param('timeout', 0)

FEAS_RLIMIT = 400_000
PROVE_RLIMIT = 40_000_000
PROVE_TIMEOUT_MS = 60_000
MAX_PATHS = 4000


class Unsupported(BaseException):
    """The code left the fragment the verifier handles: out of reach (never an alarm)."""


class EndPath(BaseException):
    """This path is complete (end of an arbitrary loop iteration)."""


class Restart(BaseException):
    """The set of cells modified by a loop grew: redo the exploration of the unit."""


class Obligation:
    __slots__ = ('name', 'unit', 'status', 'backend', 'secs', 'detail', 'where')

    def __init__(self, name, unit, status, backend, secs, detail='', where=''):
        self.name, self.unit, self.status, self.backend = name, unit, status, backend
        self.secs, self.detail, self.where = secs, detail, where


def has_quantifier(t, _cache={}):
    k = t.get_id()
    if k in _cache and _cache[k][0].eq(t):
        return _cache[k][1]
    stack, seen, res = [t], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _cache[k] = (t, res)
    return res


class Ctx:
    """State of one path."""
    cur = None

    effects = None

    def __init__(self, unit, prefix):
        self.unit = unit
        self.prefix = prefix
        self.taken = []
        self.facts = []
        self.sf = z3.SolverFor('QF_UFLIRA') if False else z3.SimpleSolver()
        self.sf.set('rlimit', FEAS_RLIMIT)
        self.counter = 0
        self.dead = None
        self.open_binders = []  # variables of the formulas being built, with the nesting depth
        self.sub = []          # stack of nested explorations (summaries under bound variables)
        self.doms = []         # their domains
        self.ncalls = 0
        self.bound = []        # bound variables of the enclosing summaries
        self.cells = []        # every mutable symbolic cell created on this path
        self.roots = []        # heap roots registered by the driver
        self.memo = {}
        self.keep = []
        self.barrier = 0
        self.loop_depth = 0
        self.trace = []
        self.undo = []         # run when the path is over (module globals replaced by contract stubs)

    # ---- bookkeeping
    @property
    def replaying(self):
        return len(self.taken) < len(self.prefix)

    def alive(self):
        if self.dead is not None:
            raise self.dead

    def die(self, exc):
        self.dead = exc
        raise exc

    def unsupported(self, msg):
        self.die(Unsupported(msg))

    def name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def const(self, base, sort):
        """A fresh unknown of the given sort (a function of the enclosing bound variables)."""
        n = self.name(base)
        if not self.bound:
            return z3.Const(n, sort)
        f = z3.Function(n, *[b.sort() for b in self.bound], sort)
        return f(*self.bound)

    def func(self, base, *sorts):
        """A fresh uninterpreted function; closed over enclosing bound variables."""
        n = self.name(base)
        if not self.bound:
            return z3.Function(n, *sorts)
        f = z3.Function(n, *[b.sort() for b in self.bound], *sorts)
        bs = list(self.bound)
        return lambda *a: f(*bs, *a)

    # ---- facts
    def _push_fact(self, t, kind):
        if z3.is_true(t):
            return
        if z3.is_and(t):
            for c in t.children():
                self._push_fact(c, kind)
            return
        if self.sub:
            self.sub[-1].items.append((kind, t))
        self.facts.append(t)
        if not has_quantifier(t):
            self.sf.add(t)

    def assume(self, *ts):
        self.alive()
        for t in ts:
            t = as_term(t)
            self._push_fact(t, 'assume')

    def tid(self, t):
        """identity of a term, kept alive so that z3 does not reuse it"""
        self.keep.append(t)
        return t.get_id()

    def feasible(self, t):
        self.sf.push()
        self.sf.add(t)
        r = self.sf.check()
        self.sf.pop()
        return r != z3.unsat

    # ---- branching
    def branch(self, cond):
        self.alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.open_binders:
            opened = {v.get_id() for lvl, vs in self.open_binders if lvl >= len(self.sub) for v in vs}
            if opened and mentions(cond, opened):
                self.unsupported('case distinction on a bound variable')
        holder = self.sub[-1] if self.sub else self
        if len(holder.taken) < len(holder.prefix):
            d = holder.prefix[len(holder.taken)]
        else:
            t_ok = self.feasible(cond)
            f_ok = self.feasible(z3.Not(cond)) if t_ok else True
            if t_ok and f_ok:
                d = True
                holder.fork(holder.taken + [False])
            else:
                d = t_ok
        holder.taken.append(d)
        self._push_fact(cond if d else z3.Not(cond), 'branch')
        return d

    def choose(self, n):
        """Unconditional n-way choice."""
        self.alive()
        holder = self.sub[-1] if self.sub else self
        if len(holder.taken) < len(holder.prefix):
            d = holder.prefix[len(holder.taken)]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                holder.fork(holder.taken + [k])
        holder.taken.append(d)
        return d

    def fork(self, prefix):
        self.unit.work.append(prefix)

    # ---- obligations
    def entails(self, t, rlimit=2_000_000):
        """Whether the facts imply t (used for engine decisions such as equal shapes; never reported)."""
        t = z3.simplify(as_term(t))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = ('ent', t.get_id(), len(self.facts))
        s = z3.SimpleSolver()
        s.set('rlimit', rlimit)
        for f in self.facts:
            s.add(f)
        s.add(z3.Not(t))
        return s.check() == z3.unsat

    def prove(self, name, t, where=''):
        self.alive()
        t = as_term(t)
        if z3.is_and(t) and len(t.children()) > 1:
            for i, c in enumerate(t.children()):
                self.prove(name, c, where)
            return
        if self.replaying or (self.sub and self.sub[-1].replaying):
            self._push_fact(t, 'assume')
            return
        t0 = time.time()
        status, backend, detail = discharge(self.facts, t)
        self.unit.record(Obligation(name, self.unit.name, status, backend, time.time() - t0, detail, where))
        self._push_fact(t, 'assume')

    # ---- nested exploration under bound variables
    def summarise(self, bvars, dom, thunk):
        """Runs thunk once per nested path with bvars arbitrary in dom.
        Returns [(cond, kind, value)], kind in {'val', 'exc'}; assumptions made inside become universally quantified facts
        of the enclosing context."""
        self.alive()
        c0 = self.counter
        cmax = c0
        work = [[]]
        self.ncalls += 1
        call = self.ncalls
        outs, later = [], []
        heap0 = self.unit.engine.heap.fingerprint(self)
        barrier0, self.barrier = self.barrier, len(self.cells)
        while work:
            sub = _Sub(work.pop(), work, call)
            nfacts = len(self.facts)
            self.counter = c0
            self.sub.append(sub)
            self.bound.extend(bvars)
            self.doms.append(dom)
            self.sf.push()
            try:
                self.facts.append(dom)
                if not has_quantifier(dom):
                    self.sf.add(dom)
                try:
                    v = thunk()
                    kind = 'val'
                except Exception as e:
                    v, kind = e, 'exc'
                self.alive()
            finally:
                self.sf.pop()
                self.doms.pop()
                del self.bound[len(self.bound) - len(bvars):]
                self.sub.pop()
                del self.facts[nfacts:]
            cmax = max(cmax, self.counter)
            if self.unit.engine.heap.fingerprint(self) != heap0:
                self.unsupported('side effect inside a comprehension over a symbolic collection')
            conds = [t for k, t in sub.items if k == 'branch']
            outs.append((z3.And(conds) if conds else z3.BoolVal(True), kind, v))
            pre = [dom]
            for k, t in sub.items:
                if k == 'branch':
                    pre.append(t)
                else:
                    later.append(z3.ForAll(list(bvars), z3.Implies(z3.And(pre), t)))
            if len(outs) > 64:
                self.unsupported('too many paths in a comprehension')
        self.barrier = barrier0
        self.counter = cmax
        for t in later:
            self._push_fact(t, 'assume')
        return outs


class _Sub:
    def __init__(self, prefix, work, call):
        self.prefix, self.work, self.call = prefix, work, call
        self.taken, self.items = [], []

    @property
    def replaying(self):
        return len(self.taken) < len(self.prefix)

    def fork(self, prefix):
        self.work.append(prefix)


_SMT_CACHE = {}


def discharge(facts, goal, rlimit=None, try_cvc5=True):
    """(status, backend, detail): status proved | failed | unknown."""
    goal_s = z3.simplify(goal)
    if z3.is_true(goal_s):
        return 'proved', 'simplify', ''
    if not has_quantifier(goal_s):           # quick attempt: ground facts only
        s0 = z3.SimpleSolver()
        s0.set('timeout', 700)
        for f in facts:
            if not has_quantifier(f):
                s0.add(f)
        s0.add(z3.Not(goal_s))
        if s0.check() == z3.unsat:
            return 'proved', 'z3-qf', ''
        if len(facts) <= 40 and not any(has_quantifier(f) for f in facts):    # an isolated arithmetic goal: z3's nonlinear engine
            s1 = z3.Solver()
            s1.set('timeout', 10000)
            for f in facts:
                s1.add(f)
            s1.add(z3.Not(goal_s))
            if s1.check() == z3.unsat:
                return 'proved', 'z3-qf', ''
    s = z3.SimpleSolver()
    s.set('rlimit', rlimit or PROVE_RLIMIT)
    s.set('timeout', PROVE_TIMEOUT_MS)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', ''
    detail = 'z3: %s' % r
    reason = s.reason_unknown() if r == z3.unknown else ''
    if reason:
        detail += ' (%s)' % reason
    # second attempt: a solver configured for nonlinear arithmetic, quantifier-free facts only
    qf = [f for f in facts if not has_quantifier(f)]
    if not has_quantifier(goal):
        s2 = z3.Solver()
        s2.set('rlimit', rlimit or PROVE_RLIMIT)
        s2.set('timeout', 20000)
        for f in qf:
            s2.add(f)
        s2.add(z3.Not(goal))
        r2 = s2.check()
        if r2 == z3.unsat:
            return 'proved', 'z3-qf', ''
        if r2 == z3.sat:
            detail += '; counter-model of the quantifier-free part: %s' % str(s2.model())[:1500]
    if try_cvc5:
        r3 = cvc5_check(facts, goal)
        if r3 == 'unsat':
            return 'proved', 'cvc5', ''
        detail += '; cvc5: %s' % r3
    try:
        detail += '; model: %s' % str(s.model())[:1500]
    except z3.Z3Exception:
        pass
    definite = r == z3.sat or 'incomplete' in reason or 'quantifier' in reason
    return ('failed' if definite else 'unknown'), 'z3', detail


def contradictory(facts):
    """are the assumptions of a path found to contradict each other (vacuity check, best effort)"""
    for qf, ms in ((True, 700), (False, 4000)):
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        if not qf:
            s.set('rlimit', 600_000)
        for f in facts:
            if not (qf and has_quantifier(f)):
                s.add(f)
        if s.check() == z3.unsat:
            return True
    return False


def cvc5_check(facts, goal, tlimit_ms=5000):
    try:
        import cvc5
    except ImportError:
        return 'absent'
    try:
        s = z3.SimpleSolver()
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        text = '(set-logic ALL)\n' + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(tlimit_ms))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm) or out
        return out.strip()
    except Exception as e:   # a parse problem on the second back end is never a verdict
        return 'error: %s' % str(e)[:80]


# =====================================================================================================================
# scalars
# =====================================================================================================================
def ctx():
    return Ctx.cur


def as_term(x):
    if isinstance(x, (SymBool, SymNum)):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x == math.inf and getattr(Ctx.cur, 'infinity', None) is not None:
            return Ctx.cur.infinity          # opt-in of a contract in which infinity is only stored
        if math.isinf(x) or math.isnan(x):
            Ctx.cur.unsupported('non-finite float used as a term')
        return z3.RealVal(Fraction(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (list, tuple)):
        return z3.And([as_term(e) for e in x])
    Ctx.cur.unsupported('cannot convert %r to a term' % type(x).__name__)


def to_real(t):
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(t) if z3.is_int(t) else t


def to_int(t):
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def num_term(x):
    t = as_term(x)
    return to_int(t)


def coerce2(a, b):
    a, b = num_term(a), num_term(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def wrap(t):
    """z3 term -> Python-visible value (concrete when it simplifies to a literal)."""
    if isinstance(t, (bool, int, float)):
        return t
    if z3.is_bool(t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymNum(t)


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return Ctx.cur.branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, as_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, as_term(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, as_term(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def _num(self):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == as_term(o))
        return self._num() == o

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(as_term(r)))

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __gt__(self, o): return self._num() > o
    def __lt__(self, o): return self._num() < o
    def __ge__(self, o): return self._num() >= o
    def __le__(self, o): return self._num() <= o

    def __repr__(self):
        return 'SymBool(%s)' % str(self.t)[:80]

    def astype(self, dt):
        return SymNum(to_real(self.t)) if 'float' in str(dt) else self._num()


def _is_num(o):
    return isinstance(o, (SymNum, SymBool, int, float, Fraction)) and not (
        isinstance(o, float) and (math.isinf(o) or math.isnan(o)))


def _inf_cmp(op, o):
    """comparison of a finite number with inf / nan"""
    if math.isnan(o):
        return op == '!='
    pos = o > 0
    return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]


class SymNum:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # classification
    @property
    def is_int(self):
        return z3.is_int(self.t)

    def _bin(self, o, f, rev=False):
        if not _is_num(o):
            return NotImplemented
        a, b = coerce2(self, o)
        if rev:
            a, b = b, a
        return wrap(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return self.__rmul__(o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from .collections_ import SymList
            return SymList(list(o)) * self
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: to_real(a) / to_real(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: to_real(a) / to_real(b), True)

    def _divmod_ok(self, a, b):
        if not (z3.is_int(a) and z3.is_int(b)):
            Ctx.cur.unsupported('floor division / modulo of reals')
        if Ctx.cur.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')

    def _fdiv(self, a, b):
        self._divmod_ok(a, b)
        if Ctx.cur.branch(b > 0):
            return a / b          # z3: floor for positive divisors
        return (-a) / (-b)

    def _mod(self, a, b):
        self._divmod_ok(a, b)
        if Ctx.cur.branch(b > 0):
            return a % b
        return -((-a) % (-b))

    def __floordiv__(self, o):
        return self._bin(o, self._fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, self._fdiv, True)

    def __mod__(self, o):
        return self._bin(o, self._mod)

    def __rmod__(self, o):
        return self._bin(o, self._mod, True)

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 8:
            r = z3.IntVal(1) if self.is_int else z3.RealVal(1)
            for _ in range(o):
                r = r * self.t
            return wrap(r)
        from . import funcs
        return wrap(funcs.power(self.t, as_term(o)))

    def __rpow__(self, o):
        from . import funcs
        return wrap(funcs.power(as_term(o), self.t))

    def _cmp(self, o, op, f):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return _inf_cmp(op, o)
        if not _is_num(o):
            return NotImplemented
        a, b = coerce2(self, o)
        return wrap(z3.simplify(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, '<', lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, '<=', lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, '>', lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, '>=', lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, '==', lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(o, '__pvarr__') else r

    def __ne__(self, o):
        r = self._cmp(o, '!=', lambda a, b: a != b)
        return True if r is NotImplemented and not hasattr(o, '__pvarr__') else r

    def __hash__(self):
        Ctx.cur.unsupported('hash of a symbolic number (native dict/set)')

    def __bool__(self):
        return Ctx.cur.branch(self.t != 0)

    def __index__(self):
        Ctx.cur.unsupported('symbolic number used as a concrete index')

    def __int__(self):
        Ctx.cur.unsupported('int() of symbolic number outside the verified modules')

    def __float__(self):
        Ctx.cur.unsupported('float() of symbolic number outside the verified modules')

    def __repr__(self):
        return 'Sym(%s)' % str(self.t)[:80]

    def __format__(self, spec):
        return repr(self)

    # the few numpy-scalar attributes the code uses
    def astype(self, dt):
        return SymNum(to_real(self.t))

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


def symint(base='n'):
    return SymNum(Ctx.cur.const(base, z3.IntSort()))


def symreal(base='x'):
    return SymNum(Ctx.cur.const(base, z3.RealSort()))


def symbool(base='b'):
    return SymBool(Ctx.cur.const(base, z3.BoolSort()))


def ite(c, a, b):
    """If-merge of two scalar values."""
    c = as_term(c)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrap(z3.simplify(z3.If(c, as_term(a), as_term(b))))
    x, y = coerce2(a, b)
    return wrap(z3.If(c, x, y))


def usable_pattern(p, vs):
    """an uninterpreted application without connectives that mentions every bound variable"""
    if p is None:
        return False
    if isinstance(p, z3.PatternRef):
        return True
    if not z3.is_app(p) or p.decl().kind() != z3.Z3_OP_UNINTERPRETED or not p.children():
        return False
    seen, stack = set(), list(p.children())
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x) or not z3.is_app(x) or z3.is_app_of(x, z3.Z3_OP_ITE):
            return False
        if z3.is_bool(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        if not x.children():
            seen.add(x.get_id())
        stack.extend(x.children())
    return all(v.get_id() in seen for v in vs)


def mentions(t, ids):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def bind(c, vs, fn):
    c.open_binders.append((len(c.sub), vs))
    try:
        return fn(*vs)
    finally:
        c.open_binders.pop()


def Forall(sorts, body, pats=None):
    """Forall([Int, Int], lambda i, j: term[, pats=lambda i, j: [terms]])"""
    c = Ctx.cur
    c.counter += 1
    vs = [z3.Const('q%d_%d!b' % (k, c.counter), s) for k, s in enumerate(sorts)]
    b = as_term(bind(c, vs, body))
    if z3.is_true(b):
        return b
    if pats is not None:
        ps = [p for p in bind(c, vs, pats) if usable_pattern(p, vs)]
        if ps:
            return z3.ForAll(vs, b, patterns=ps)
    return z3.ForAll(vs, b)


def Exists(sorts, body, pats=None):
    c = Ctx.cur
    c.counter += 1
    vs = [z3.Const('e%d_%d!b' % (k, c.counter), s) for k, s in enumerate(sorts)]
    b = as_term(bind(c, vs, body))
    if pats is not None:
        ps = [p for p in bind(c, vs, pats) if usable_pattern(p, vs)]
        if ps:
            return z3.Exists(vs, b, patterns=ps)
    return z3.Exists(vs, b)


Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
