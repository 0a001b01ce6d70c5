"""Reductions over symbolic arrays, characterised by quantified axioms (assumed contracts of numpy)."""
import z3

from .core import Ctx, SymNum, SymBool, And, Forall, Implies, Int, Not, Or, as_term, wrap, to_real, to_int, Real, Bool, usable_pattern
from .arrays import Arr, toarr, dterm, dim_wrap, dim_eq, kind_of_term, cast, SORT, bcast_shapes

UNROLL = 6
DEBUG = False


def reduce_axis(op, a, axis=None, **kw):
    if hasattr(a, '_red') and axis in (None, 0):
        return a._red(op)
    a = toarr(a)
    if a.ndim == 0:
        return wrap(a.at())
    if axis is None:
        if a.ndim == 1:
            rd = a.reader()
            return wrap(reduce1(op, lambda j: rd(j), a.shape[0], a.kind))
        return wrap(reduce_all(op, a))
    if isinstance(axis, int) and axis < 0:
        axis += a.ndim
    if a.ndim == 1:
        if axis != 0:
            raise ValueError('axis out of bounds')
        rd = a.reader()
        return wrap(reduce1(op, lambda j: rd(j), a.shape[0], a.kind))
    if op == 'any' and axis == 1 and getattr(a, 'row_any', None) is not None and a.buf.version == 0:
        return Arr.make((a.shape[0],), 'bool', a.row_any)
    rd = a.reader()
    shape = [d for k, d in enumerate(a.shape) if k != axis]
    kind = result_kind(op, a.kind)
    c = Ctx.cur
    bs = bound_names(len(shape))
    dom = And([And(b >= 0, b < dterm(d)) for b, d in zip(bs, shape)])
    # an empty reduction raises for every row at once
    if op in ('min', 'max', 'argmax', 'argmin'):
        require_nonempty(a.shape[axis])
    outs = c.summarise(bs, dom, lambda: reduce1(
        op, lambda j: rd(*(bs[:axis] + [j] + bs[axis:])), a.shape[axis], a.kind, checked=True))
    assert len(outs) == 1, 'branching reduction'
    t = outs[0][2]
    res = Arr.make(shape, kind, lambda *ix: z3.substitute(t, *[(b, as_term(i)) for b, i in zip(bs, ix)]))
    tk = getattr(a, 'taken', None)
    if op == 'sum' and tk is not None and a.buf.version == 0 and a.ndim == 2 and tk[1] == axis:
        partial_sum_lemma(res, tk[0], axis, tk[2])
    return res


def partial_sum_lemma(part, src, axis, mem):
    """sum over a set of positions against the sum over all positions (assumed lemma about finite sums): with non-negative
    terms it is at most the full sum, and equal to it exactly when every other term is zero"""
    c = Ctx.cur
    full = reduce_axis('sum', src, axis).reader()
    p, x = part.reader(), src.reader()
    m, n = dterm(part.shape[0]), dterm(src.shape[axis])
    e = (lambda i, j: x(i, j)) if axis == 1 else (lambda i, j: x(j, i))
    w1, w2 = c.func('neg', Int, Int), c.func('rest', Int, Int)
    rng = lambda j: And(j >= 0, j < n)
    nn = lambda i: And(rng(w1(i)), e(i, w1(i)) < 0)
    dom = lambda i: And(i >= 0, i < m)
    c.assume(Forall([Int], lambda i: Implies(dom(i), Or(nn(i), And(
        p(i) <= full(i), Or(p(i) == full(i), And(rng(w2(i)), e(i, w2(i)) != 0, Not(mem(w2(i)))))))),
        lambda i: [p(i)]))
    vs = [z3.Const('pl%d' % k, Int) for k in range(2)]
    if not usable_pattern(z3.simplify(e(*vs)), vs):
        return
    c.assume(Forall([Int, Int], lambda i, j: Implies(And(dom(i), rng(j), Not(mem(j)), p(i) == full(i)), Or(nn(i), e(i, j) == 0)),
                    lambda i, j: [z3.MultiPattern(p(i), e(i, j))]))


def bound_names(k):
    """canonical bound variables: equal reductions give equal terms (and share their memoised axioms)"""
    d = len(Ctx.cur.bound)
    return [z3.Const('rb%d!b' % (d + j), Int) for j in range(k)]


def memoised(key, build):
    """result of a reduction; a second occurrence of the same reduction is the same term"""
    c = Ctx.cur
    if any(k == 'branch' for s in c.sub for k, _ in s.items):
        return build()
    key = ('red',) + key + tuple(c.tid(b) for b in c.bound) + tuple(c.tid(d) for d in c.doms)
    e = c.memo.get(key)
    calls = [s.call for s in c.sub]
    if e is not None:
        r, facts, owner, delta = e
        c.counter += delta                   # replayed paths must number their later unknowns as the first one did
        if owner and owner[0] in calls:      # the axioms are not yet facts of the whole path
            for f in facts:
                c._push_fact(f, 'assume')
        return r
    n0 = len(c.sub[-1].items) if c.sub else 0
    k0 = c.counter
    r = build()
    if c.sub and any(k == 'branch' for k, _ in c.sub[-1].items[n0:]):
        return r
    facts = [t for k, t in c.sub[-1].items[n0:]] if c.sub else []
    c.memo[key] = (r, facts, calls, c.counter - k0)
    return r


def shifts(g):
    """the offsets T at which g(j) distinguishes j < T"""
    p = z3.Const('redprobe', Int)
    out, seen, todo = {}, set(), [z3.simplify(g(p))]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = t.children()
            for x, y in ((a, b), (b, a)):
                if x.eq(p) and z3.is_int(y) and not contains(y, p):
                    k = t.decl().kind()
                    if (k == z3.Z3_OP_LE and x is a) or (k == z3.Z3_OP_GE and x is b):
                        y = z3.simplify(y + 1)
                    if not (z3.is_int_value(y) and y.as_long() == 0):
                        out[y.get_id()] = y
        todo.extend(t.children())
    return list(out.values())


def contains(t, p):
    return t.eq(p) or any(contains(x, p) for x in t.children())


def result_kind(op, kind):
    if op in ('any', 'all'):
        return 'bool'
    if op in ('argmax', 'argmin'):
        return 'int'
    if op in ('sum', 'prod') and kind == 'bool':
        return 'int'
    return kind


def require_nonempty(n):
    if isinstance(n, int):
        if n == 0:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return
    if not Ctx.cur.branch(dterm(n) > 0):
        raise ValueError('zero-size array to reduction operation which has no identity')


def reduce1(op, f, n, kind, checked=False):
    """term for op over f(0..n-1)"""
    c = Ctx.cur
    nt = dterm(n)
    if op in ('min', 'max', 'argmax', 'argmin') and not checked:
        require_nonempty(n)
    if isinstance(n, int) and n <= UNROLL:
        ts = [f(z3.IntVal(j)) for j in range(n)]
        return _concrete(op, ts, kind)
    probe = z3.simplify(f(z3.Const('redprobe', Int)))
    r = memoised((op, kind, c.tid(nt), c.tid(probe)), lambda: _reduce1(op, f, nt, kind))
    if op == 'sum' and kind == 'bool' and not c.sub:      # the number of positions a mask selects
        key = ('sel', c.tid(nt), c.tid(z3.simplify(f(z3.Const('maskkey', Int)))))
        known = c.memo.setdefault('boolsums', {})
        if key not in known:
            known[key] = r
            if key in c.memo:
                c.assume(r == dterm(c.memo[key][1]))
    return r


def _reduce1(op, f, nt, kind):
    c = Ctx.cur
    rng = lambda j: And(j >= 0, j < nt)
    if op in ('any', 'all'):
        r, w = c.const(op, Bool), c.const('w', Int)
        g = (lambda j: f(j) if kind == 'bool' else f(j) != 0)
        if op == 'any':
            c.assume(Or(Not(r), And(rng(w), g(w))), Implies(Not(r), Forall([Int], lambda j: Implies(rng(j), Not(g(j))))),
                     Or(r, nt <= 0, And(Not(g(z3.IntVal(0))), Not(g(z3.simplify(nt - 1))))))
        else:
            c.assume(Or(r, And(rng(w), Not(g(w)))), Implies(r, Forall([Int], lambda j: Implies(rng(j), g(j)))),
                     Or(Not(r), nt <= 0, And(g(z3.IntVal(0)), g(z3.simplify(nt - 1)))))
        return r
    if op in ('min', 'max'):
        s = Real if kind == 'real' else Int
        g = (lambda j: to_int(f(j)))
        r, w = c.const(op, s), c.const('w', Int)
        cmp = (lambda x: r <= x) if op == 'min' else (lambda x: r >= x)
        c.assume(rng(w), r == g(w), Forall([Int], lambda j: Implies(rng(j), cmp(g(j)))))
        for T in shifts(g):                  # the same fact over the later parts of a concatenation
            c.assume(Forall([Int], lambda j: Implies(rng(j + T), cmp(z3.simplify(g(j + T))))))
        c.assume(cmp(z3.simplify(g(z3.IntVal(0)))))
        return r if kind != 'bool' else r != 0
    if op in ('argmax', 'argmin'):
        r = c.const(op, Int)
        g = (lambda j: to_int(f(j)))
        if op == 'argmax':
            c.assume(rng(r), Forall([Int], lambda j: Implies(rng(j), And(g(j) <= g(r), Implies(j < r, g(j) < g(r))))))
        else:
            c.assume(rng(r), Forall([Int], lambda j: Implies(rng(j), And(g(j) >= g(r), Implies(j < r, g(j) > g(r))))))
        return r
    if op == 'sum':
        return symsum(f, nt, kind)
    if op == 'prod':
        return symprod(f, nt, kind)
    c.unsupported('reduction %s' % op)


def _concrete(op, ts, kind):
    if op == 'any':
        return Or([t if z3.is_bool(t) else t != 0 for t in ts]) if ts else z3.BoolVal(False)
    if op == 'all':
        return And([t if z3.is_bool(t) else t != 0 for t in ts]) if ts else z3.BoolVal(True)
    ns = [to_int(t) for t in ts]
    if op in ('sum', 'prod'):
        r = (z3.RealVal if kind == 'real' else z3.IntVal)(0 if op == 'sum' else 1)
        for t in ns:
            r = r + t if op == 'sum' else r * t
        return z3.simplify(r)
    if op in ('min', 'max'):
        r = ns[0]
        for t in ns[1:]:
            r = z3.If(t < r, t, r) if op == 'min' else z3.If(t > r, t, r)
        return r if kind != 'bool' else r != 0
    best, bi = ns[0], z3.IntVal(0)
    for k, t in enumerate(ns[1:], 1):
        g = t > best if op == 'argmax' else t < best
        best, bi = z3.If(g, t, best), z3.If(g, z3.IntVal(k), bi)
    return bi


def symsum(f, nt, kind):
    """Sum over a symbolic range.  Facts (all instances of the definition of a finite sum):
       extensionality and monotonicity against the other sums of the path, sign, single-term bounds, 0-1 counts."""
    c = Ctx.cur
    s = Real if kind == 'real' else Int
    g = lambda j: to_int(f(j))
    rng = lambda j: And(j >= 0, j < nt)
    r = c.const('sum', s)
    k1, k2, k3, k4 = (c.const('k', Int) for _ in range(4))
    c.assume(Implies(nt <= 0, r == 0),
             Or(r >= 0, And(rng(k1), g(k1) < 0)),
             Or(r <= 0, And(rng(k2), g(k2) > 0)),
             Or(And(rng(k1), g(k1) < 0), Forall([Int], lambda i: Implies(rng(i), r >= g(i)))))
    is01 = kind == 'bool'
    lt1, gt1 = c.const('k', Int), c.const('k', Int)
    n_ = z3.ToReal(nt) if kind == 'real' else nt
    # sum <= n when every term <= 1; equality forces every term to be 1
    c.assume(Implies(nt >= 0, Or(And(rng(gt1), g(gt1) > 1),
                                 And(r <= n_, Implies(r == n_, Forall([Int], lambda i: Implies(rng(i), g(i) == 1)))))),
             Implies(nt >= 0, Or(And(rng(lt1), g(lt1) < 1), r >= n_)))
    c.assume(Or(nt != 1, r == g(z3.IntVal(0))))
    for (g2, nt2, r2, s2) in list(c.memo.setdefault('sums', [])):
        if s2 != s:
            continue
        kd, ke = c.const('k', Int), c.const('k', Int)
        c.assume(Or(nt != nt2, r <= r2, And(rng(kd), g(kd) > g2(kd))),
                 Or(nt != nt2, r >= r2, And(rng(ke), g(ke) < g2(ke))))
    if not c.sub:
        c.memo['sums'].append((g, nt, r, s))
    c.memo.setdefault('psums', []).append((tuple(c.bound), And(list(c.doms)), g, nt, r, s))
    return r


def link_sums(pairs=None):
    """Extensionality between every two sums of the path, for all values of the variables they depend on: sums over equal
    ranges differ only where a term differs (an instance of the definition of a finite sum)."""
    c = Ctx.cur
    ps = c.memo.get('psums', [])
    done = c.memo.setdefault('linked', set())

    def ren(bs, tag):
        return [z3.Const('%s%d!l' % (tag, k), b.sort()) for k, b in enumerate(bs)]
    for x in range(len(ps)):
        for y in range(x, len(ps)):
            if (x, y) in done:
                continue
            done.add((x, y))
            (b1, d1, g1, n1, r1, s1), (b2, d2, g2, n2, r2, s2) = ps[x], ps[y]
            if s1 != s2 or (x == y and not b1):
                continue
            v1, v2 = ren(b1, 'la'), ren(b2, 'lb')
            sub1 = lambda t: z3.substitute(t, *zip(b1, v1)) if b1 else t
            sub2 = lambda t: z3.substitute(t, *zip(b2, v2)) if b2 else t
            R1, R2, N1, N2 = sub1(r1), sub2(r2), sub1(n1), sub2(n2)
            vs = v1 + v2
            w = c.func('kd', *([v.sort() for v in vs] + [Int])) if vs else None
            k = w(*vs) if vs else c.const('kd', Int)
            body = Implies(And(sub1(d1), sub2(d2)), Or(N1 != N2, R1 == R2, And(k >= 0, k < N1, sub1(g1(k)) != sub2(g2(k)))))
            if vs:
                pats = [z3.MultiPattern(R1, R2)] if v1 and v2 else [R1 if v1 else R2]
                c.assume(z3.ForAll(vs, body, patterns=pats))
            else:
                c.assume(body)


def solver_check(c, goal, rlimit):
    s = z3.SimpleSolver()
    s.set('rlimit', rlimit)
    s.set('timeout', 3000)
    for f in c.facts:
        s.add(f)
    s.add(Not(goal))
    return s.check() == z3.unsat


def subterms(t, out=None):
    out = {} if out is None else out
    todo = [t]
    while todo:
        t = todo.pop()
        if t.get_id() in out or not z3.is_app(t):
            continue
        out[t.get_id()] = t
        todo.extend(t.children())
    return out


def terms_equal(c, a, b, prem, rlimit, depth=6):
    """whether a == b follows from the facts and prem, by case distinction on the conditions of the terms, replacing equals by
    equals inside them, and comparing polynomials"""
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b) or z3.is_true(z3.simplify(a == b, som=True)):
        return True
    if not z3.is_arith(a) or not z3.is_arith(b):
        return False
    both = list(subterms(a).values()) + list(subterms(b, {}).values())
    conds = [t.arg(0) for t in both if z3.is_app_of(t, z3.Z3_OP_ITE)]
    if conds:
        if depth == 0:
            return False
        k = conds[0]
        for v in (True, False):
            p2 = And(prem, k if v else Not(k))
            s0 = z3.SimpleSolver()
            s0.set('rlimit', 20_000)
            s0.add(p2)
            if s0.check() == z3.unsat:
                continue
            sub = [(k, z3.BoolVal(v))]
            if not terms_equal(c, z3.substitute(a, *sub), z3.substitute(b, *sub), p2, rlimit, depth - 1):
                if not solver_check(c, Not(p2), rlimit):
                    return False
        return True
    at = lambda t: {x.get_id(): x for x in subterms(t).values()
                    if z3.is_arith(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0}
    A, B = at(a), at(b)
    pairs = [(x, y) for ix, x in A.items() if ix not in B for iy, y in B.items() if iy not in A and x.decl().range() == y.decl().range()]
    pairs.sort(key=lambda p: -int(p[0].decl().eq(p[1].decl())))
    for x, y in pairs:
        if solver_check(c, Implies(prem, x == y), rlimit):
            b2 = z3.substitute(b, (y, x))
            return terms_equal(c, a, b2, prem, rlimit, depth)
    return False


def equate_sums(*ix, rlimit=200_000):
    """Extensionality as a proof rule: two sums over the same range whose terms are shown equal position by position (each
    check is a query to the solver at a fresh position) are equal.  Sums that depend on bound variables are compared for all
    values of them (same variables on both sides) and at the given index terms."""
    c = Ctx.cur
    done = c.memo.setdefault('equated', set())
    ps = list(c.memo.get('psums', []))

    def same(n1, n2, dom, g1, g2, key, conclude):
        if key in done:
            return
        done.add(key)
        j = z3.Const('eqpos', Int)
        a, b = z3.simplify(g1(j)), z3.simplify(g2(j))
        sn = z3.simplify(n1 == n2)
        if z3.is_false(sn):
            return
        goal = And(n1 == n2, Implies(And(dom, j >= 0, j < n1), a == b))
        prem = And(dom, j >= 0, j < n1)
        ok = (z3.is_true(sn) or check(n1 == n2)) and (terms_equal(c, a, b, prem, rlimit) or check(goal))
        if DEBUG:
            print(key, n1, '\n   ', a, '\n   ', b, ok)
        if ok:
            c.assume(conclude)

    def check(goal):
        return solver_check(c, goal, rlimit)

    for x in range(len(ps)):
        for y in range(x):
            (b1, d1, g1, n1, r1, s1), (b2, d2, g2, n2, r2, s2) = ps[y], ps[x]
            if s1 != s2 or r1.eq(r2) or not b1 or [b.sort() for b in b1] != [b.sort() for b in b2]:
                continue
            vs = [z3.Const('eqv%d' % k, b.sort()) for k, b in enumerate(b1)]
            f1 = lambda t, b1=b1, vs=vs: z3.substitute(t, *zip(b1, vs))
            f2 = lambda t, b2=b2, vs=vs: z3.substitute(t, *zip(b2, vs))
            R1, R2 = f1(r1), f2(r2)
            dom = And(f1(d1), f2(d2))
            same(f1(n1), f2(n2), dom, lambda j, g=g1, f=f1: f(g(j)), lambda j, g=g2, f=f2: f(g(j)), ('al', x, y),
                 z3.And(z3.ForAll(vs, Implies(dom, R1 == R2), patterns=[R1]), z3.ForAll(vs, Implies(dom, R1 == R2), patterns=[R2])))
    import itertools
    inst = []
    for k, (b, d, g, n, r, s) in enumerate(ps):
        for vals in itertools.product(ix, repeat=len(b)):
            f = (lambda t, b=b, vals=vals: z3.substitute(t, *zip(b, [as_term(v) for v in vals])) if b else t)
            inst.append((k, tuple(c.tid(as_term(v)) for v in vals), f(d), (lambda j, g=g, f=f: f(g(j))), f(n), f(r), s))
    for x in range(len(inst)):
        for y in range(x):
            (k1, v1, d1, g1, n1, r1, s1), (k2, v2, d2, g2, n2, r2, s2) = inst[y], inst[x]
            if s1 != s2 or r1.eq(r2) or (k1 == k2 and v1 == v2):
                continue
            same(n1, n2, And(d1, d2), g1, g2, ('gr', k1, v1, k2, v2), Implies(And(d1, d2), r1 == r2))


def equal_sums(name, r1, r2):
    """Extensionality for two given sums: equal ranges and equal terms at an arbitrary position (obligations) give equal sums."""
    c = Ctx.cur

    def parts(r):
        for (b, d, g, n, t, s) in c.memo.get('psums', []):
            if t.decl().eq(r.decl()) and t.num_args() == r.num_args():
                sub = [(t.arg(k), r.arg(k)) for k in range(t.num_args())]
                if any(not any(x.eq(y) for y in b) for x, _ in sub) or len(sub) != len(b):
                    if t.eq(r):
                        sub = []
                    else:
                        continue
                f = lambda x: z3.substitute(x, *sub) if sub else x
                return f(d), (lambda j: f(g(j))), f(n)
        c.unsupported('%s: not a sum' % name)
    d1, g1, n1 = parts(r1)
    d2, g2, n2 = parts(r2)
    j = c.const('pos', Int)
    c.prove(name + ': same range', And(d1, d2, n1 == n2))
    c.prove(name, Implies(And(j >= 0, j < n1), g1(j) == g2(j)))
    c.assume(r1 == r2)


def sum_rule(name, n, *parts, how=None):
    """Linearity as a proof rule: if sum_k c_k f_k(j) = 0 at every position j (an obligation), then sum_k c_k S_k = 0 for the
    sums S_k of f_k over the range (induction on its length).  parts: (coefficient, f)."""
    c = Ctx.cur
    nt = dterm(n)
    fs = [(to_real(as_term(a)), f) for a, f in parts]
    body = lambda j: sum([a * to_real(f(j)) for a, f in fs], z3.RealVal(0)) == 0
    if how is None:
        c.prove(name, Forall([Int], lambda j: Implies(And(j >= 0, j < nt), body(j))))
    else:                                    # at an arbitrary position; `how` may establish lemmas for it
        j = c.const('pos', Int)
        saved = c.facts
        c.facts = list(saved) + [j >= 0, j < nt]
        try:
            how(j, body(j))
            c.prove(name, body(j))
        finally:
            c.facts = saved
    ss = [reduce1('sum', lambda j, f=f: to_real(f(j)), n, 'real') for a, f in fs]
    c.assume(sum([a * s for (a, _), s in zip(fs, ss)], z3.RealVal(0)) == 0)
    return ss


def telescope_rule(name, n, F, *parts, how=None):
    """Telescoping sums as a proof rule: if sum_k c_k f_k(j) = F(j) - F(j+1) at every position j of the range (an obligation, at
    an arbitrary position; `how` may establish lemmas for it), then sum_k c_k S_k = F(0) - F(n) (induction on the length)."""
    c = Ctx.cur
    nt = dterm(n)
    fs = [(to_real(as_term(a)), f) for a, f in parts]
    c.prove(name + ': the range is not negative', nt >= 0)
    j = c.const('tel', Int)
    saved = c.facts
    c.facts = list(saved) + [j >= 0, j < nt]
    try:
        if how is not None:
            how(j)
        c.prove(name, sum([a * to_real(f(j)) for a, f in fs], z3.RealVal(0)) == to_real(F(j)) - to_real(F(z3.simplify(j + 1))))
    finally:
        c.facts = saved
    ss = [reduce1('sum', lambda j, f=f: to_real(f(j)), n, 'real') for a, f in fs]
    c.assume(sum([a * s for (a, _), s in zip(fs, ss)], z3.RealVal(0)) == to_real(F(z3.IntVal(0))) - to_real(F(nt)))
    return ss


def product_rule(name, n, F, f, how=None):
    """Products by their recursive definition: if F(0) = 1 and F(j+1) = F(j) f(j) at every position j of the range (obligations),
    then the product of f over the range is F(n) (induction on the length)."""
    c = Ctx.cur
    nt = dterm(n)
    c.prove(name + ': the range is not negative', nt >= 0)
    c.prove(name + ': empty product', to_real(F(z3.IntVal(0))) == 1)
    j = c.const('pro', Int)
    saved = c.facts
    c.facts = list(saved) + [j >= 0, j < nt]
    try:
        if how is not None:
            how(j)
        c.prove(name, to_real(F(z3.simplify(j + 1))) == to_real(F(j)) * to_real(f(j)))
    finally:
        c.facts = saved
    r = symprod(f, nt, 'real')
    c.assume(r == to_real(F(nt)))
    return r


def head_rule(n, f):
    """The first term of a finite sum split off: f(0) + ... + f(n) = f(0) + (f(1) + ... + f(n)), for n >= 0 (definition)."""
    c = Ctx.cur
    nt = dterm(n)
    c.prove('the range is not negative', nt >= 0)
    whole = reduce1('sum', lambda j: to_real(f(j)), dim_wrap(nt + 1), 'real')
    rest = reduce1('sum', lambda j: to_real(f(z3.simplify(j + 1))), n, 'real')
    c.assume(whole == to_real(f(z3.IntVal(0))) + rest)
    return whole, rest


def prefix_rule(name, n1, n2, f, zero=False):
    """A finite sum against a longer one (induction on the difference): with no negative term behind n1 (an obligation) the
    longer one is at least the shorter one, with only zeros they are equal."""
    c = Ctx.cur
    a, b = dterm(n1), dterm(n2)
    c.prove(name + ': lengths', And(a >= 0, a <= b))
    c.prove(name, Forall([Int], lambda j: Implies(And(j >= a, j < b), to_real(f(j)) == 0 if zero else to_real(f(j)) >= 0)))
    short = reduce1('sum', lambda j: to_real(f(j)), n1, 'real')
    long = reduce1('sum', lambda j: to_real(f(j)), n2, 'real')
    c.assume(short == long if zero else short <= long)
    return short, long


def symprod(f, nt, kind):
    c = Ctx.cur
    g = lambda j: to_real(f(j))
    rng = lambda j: And(j >= 0, j < nt)
    r = c.const('prod', Real)
    k = [c.const('k', Int) for _ in range(4)]
    c.assume(Or(nt <= 0, r < 1, And(rng(k[3]), Or(g(k[3]) >= 1, g(k[3]) < 0))))
    c.assume(Implies(nt <= 0, r == 1),
             Or(r > 0, And(rng(k[0]), g(k[0]) <= 0)),
             Or(r >= 0, And(rng(k[1]), g(k[1]) < 0)),
             Or(r <= 1, And(rng(k[2]), Or(g(k[2]) > 1, g(k[2]) < 0))),
             Or(nt != 1, r == g(z3.IntVal(0))))
    c.memo.setdefault('psums', []).append((tuple(c.bound), And(list(c.doms)), g, nt, r, PROD))    # extensionality, as for sums
    return r


PROD = z3.DeclareSort('product')         # tag: products are compared with products only


def reduce_all(op, a):
    """full reduction of a 2-D array"""
    c = Ctx.cur
    if op in ('any', 'all', 'min', 'max'):
        if op in ('min', 'max'):
            for d in a.shape:
                require_nonempty(d)
        first = reduce_axis(op, a, a.ndim - 1)
        return as_term(reduce_axis(op, first))
    if op == 'sum':
        return as_term(reduce_axis('sum', reduce_axis('sum', a, a.ndim - 1)))
    c.unsupported('full reduction %s of a matrix' % op)


def dot(a, b):
    from .collections_ import scalar
    if scalar(a) or scalar(b):
        return a * b
    if hasattr(a, '_red') or hasattr(b, '_red'):
        return a.dot(b) if hasattr(a, '_red') else b.dot(a)
    a, b = toarr(a), toarr(b)
    ra, rb = a.reader(), b.reader()
    kind = 'real'
    def need(x, y):
        if not dim_eq(x, y):
            raise ValueError('shapes not aligned')
    if a.ndim == 1 and b.ndim == 1:
        need(a.shape[0], b.shape[0])
        return wrap(reduce1('sum', lambda j: to_real(ra(j)) * to_real(rb(j)), a.shape[0], kind))
    c = Ctx.cur
    if a.ndim == 2 and b.ndim == 1:
        need(a.shape[1], b.shape[0])
        return _rows([a.shape[0]], lambda i: reduce1('sum', lambda j: to_real(ra(i, j)) * to_real(rb(j)), a.shape[1], kind))
    if a.ndim == 1 and b.ndim == 2:
        need(a.shape[0], b.shape[0])
        return _rows([b.shape[1]], lambda k: reduce1('sum', lambda j: to_real(ra(j)) * to_real(rb(j, k)), a.shape[0], kind))
    if a.ndim == 2 and b.ndim == 2:
        need(a.shape[1], b.shape[0])
        return _rows([a.shape[0], b.shape[1]], lambda i, k: reduce1(
            'sum', lambda j: to_real(ra(i, j)) * to_real(rb(j, k)), a.shape[1], kind))
    c.unsupported('dot of %d-d and %d-d' % (a.ndim, b.ndim))


def _rows(shape, f, kind='real'):
    """array whose entry at the bound indices is the term f(indices)"""
    c = Ctx.cur
    bs = bound_names(len(shape))
    dom = And([And(b >= 0, b < dterm(d)) for b, d in zip(bs, shape)])
    outs = c.summarise(bs, dom, lambda: f(*bs))
    assert len(outs) == 1, 'branching row function'
    t = outs[0][2]
    return Arr.make(shape, kind_of_term(t) if kind is None else kind,
                    lambda *ix: z3.substitute(t, *[(b, as_term(i)) for b, i in zip(bs, ix)]))
