"""Loop cutting with invariants, comprehensions over symbolic collections, and the heap snapshots behind both.

A `for`/`while` statement of the verified source is rewritten mechanically (loader.py) so that its iterator is a loop
object of this module.  Over a concrete iterable the loop runs natively.  Over a symbolic one it is cut:
   entry      the invariant is an obligation for zero iterations
   havoc      every local and heap cell that an iteration may modify gets an arbitrary value (the set is discovered by
              comparing snapshots and closed by re-running the exploration until it is stable: the frame is checked)
   iteration  the invariant is assumed for t, the real body runs once, the invariant is an obligation for t + 1
   exit       the invariant is assumed for the number of iterations and execution continues behind the loop
"""
import sys
import types

import z3

from .core import (Ctx, EndPath, Restart, SymBool, SymNum, Unsupported, And, Forall, Implies, Int, Not, Or, Real, Bool,
                   as_term, ite, wrap)
from .arrays import Arr, Buf, Cell, dim_wrap, dterm, kind_of_term
from .collections_ import (GenExp, SymDict, SymDictItems, SymEnum, SymList, SymMap, SymRange, SymSet, SymZip, as_seq,
                           is_symbolic_seq, merge, scalar)

UNROLL_LIMIT = 64


class Heap:
    """Finds every slot and cell reachable from given roots."""

    def __init__(self, engine):
        self.engine = engine

    def is_repo_obj(self, v):
        m = type(v).__module__
        return isinstance(m, str) and (m == 'aideme' or m.startswith('aideme.'))

    def walk(self, roots):
        """yields (path, container, key, value, cell): reference slots (cell None) and symbolic cells"""
        seen = set()
        out = []
        stack = [(p, None, None, v) for p, v in reversed(list(roots))]
        while stack:
            path, cont, key, v = stack.pop()
            if cont is not None:
                out.append((path, cont, key, v, None))
            if isinstance(v, Arr):
                v = v.buf
                path = path + '#'
            if isinstance(v, Cell):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                out.append((path, None, None, v, v))
                if isinstance(v, SymList) and v.items is not None:
                    for i, x in reversed(list(enumerate(v.items))):
                        stack.append(('%s[%d]' % (path, i), None, None, x))
                continue
            if isinstance(v, dict) and not isinstance(v, types.ModuleType):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                for k in sorted(v, key=repr, reverse=True):
                    stack.append(('%s[%r]' % (path, k), v, k, v[k]))
                continue
            if isinstance(v, (list, tuple)):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                for i, x in reversed(list(enumerate(v))):
                    stack.append(('%s[%d]' % (path, i), v if isinstance(v, list) else None, i, x))
                continue
            if self.is_repo_obj(v) or getattr(type(v), '__pvobject__', False):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                d = getattr(v, '__dict__', {})
                for k in sorted(d, reverse=True):
                    if k.startswith('_pv_'):
                        continue
                    stack.append(('%s.%s' % (path, k), d, k, d[k]))
        return out

    def snapshot(self, roots):
        snap = {}
        for path, cont, key, v, cell in self.walk(roots):
            if cell is not None:
                snap[('c', path)] = (cell, cell.version)
            else:
                snap[('s', path)] = (cont, key, v)
        return snap

    def fingerprint(self, c):
        fp = []
        for path, cont, key, v, cell in self.walk(c.roots):
            if cell is None:
                fp.append((path, id(v) if not isinstance(v, (int, float, str, bool, type(None))) else v))
        return fp


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (SymNum, SymBool)) and isinstance(b, (SymNum, SymBool)):
        return a.t.eq(b.t)
    if isinstance(a, (bool, int, float, str, type(None))) and type(a) == type(b):
        return a == b
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.buf is b.buf and a.dims == b.dims and len(a.shape) == len(b.shape) and all(
            same_value(x, y) for x, y in zip(a.shape, b.shape))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    return False


def descr(v, old=None):
    """how to make an arbitrary value like v"""
    if isinstance(v, SymBool) or isinstance(v, bool):
        return ('bool',)
    if isinstance(v, int):
        return ('int',)
    if isinstance(v, float):
        return ('real',)
    if isinstance(v, SymNum):
        return ('int',) if v.is_int else ('real',)
    if isinstance(v, Arr):
        dims = []
        for k, d in enumerate(v.shape):
            keep = isinstance(d, int) and isinstance(old, Arr) and old.ndim == v.ndim and same_value(old.shape[k], d)
            dims.append(d if keep or (isinstance(d, int) and not isinstance(old, Arr)) else None)
        return ('arr', v.kind, tuple(dims))
    if isinstance(v, SymSet):
        return ('set',)
    if isinstance(v, tuple):
        return ('tuple', tuple(descr(x, old[i] if isinstance(old, tuple) and len(old) == len(v) else None)
                               for i, x in enumerate(v)))
    if isinstance(v, SymList):
        return ('list', list_kind(v))
    if isinstance(v, SymDict):
        return ('dict', dict_kind(v))
    if v is None:
        return ('none',)
    return ('obj', type(v).__name__)


def join_descr(a, b):
    if a is None or a == b:
        return b
    if b is None or (a[0] == 'mixed' and b in a[1:]):
        return a
    if a[0] == 'mixed' or b[0] == 'mixed':
        return ('mixed',) + tuple(sorted(set(a[1:] if a[0] == 'mixed' else (a,)) | set(b[1:] if b[0] == 'mixed' else (b,)), key=repr))
    if a[0] in ('bool', 'int', 'real') and b[0] in ('bool', 'int', 'real'):
        o = ['bool', 'int', 'real']
        return (o[max(o.index(a[0]), o.index(b[0]))],)
    if a[0] == 'arr' and b[0] == 'arr' and len(a[2]) == len(b[2]):
        from .arrays import join_kind
        return ('arr', join_kind(a[1], b[1]), tuple(x if x == y else None for x, y in zip(a[2], b[2])))
    if a[0] == 'list' and b[0] == 'list':
        if a[1] is None:
            return b
        if b[1] is None:
            return a
        if a[1] in ('bool', 'int', 'real') and b[1] in ('bool', 'int', 'real'):
            return ('list', join_descr((a[1],), (b[1],))[0])
    if a[0] == 'dict' and b[0] == 'dict' and (a[1] is None or b[1] is None):
        return a if b[1] is None else b
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a[1]) == len(b[1]):
        return ('tuple', tuple(join_descr(x, y) for x, y in zip(a[1], b[1])))
    return ('mixed', a, b)


def list_kind(l):
    if l.items is not None:
        ks = {kind_name(x) for x in l.items}
    else:
        ks = {kind_name(l._fn(z3.Const('probe', Int)))}
    if not ks:
        return None
    if ks <= {'bool', 'int', 'real'}:
        for k in ('real', 'int', 'bool'):
            if k in ks:
                return k
    return ks.pop() if len(ks) == 1 else 'mixed'


def dict_kind(d):
    if d.val is None:
        return None
    return kind_name(d.val(z3.Const('probe', Int)))


def kind_name(x):
    if isinstance(x, (bool, SymBool)):
        return 'bool'
    if isinstance(x, int) or (isinstance(x, SymNum) and x.is_int):
        return 'int'
    if isinstance(x, (float, SymNum)):
        return 'real'
    if isinstance(x, SymSet):
        return 'set'
    if isinstance(x, Arr):
        return 'arr'
    return type(x).__name__


def fresh_value(d, base):
    c = Ctx.cur
    if d[0] == 'bool':
        return SymBool(c.const(base, Bool))
    if d[0] == 'int':
        return SymNum(c.const(base, Int))
    if d[0] == 'real':
        return SymNum(c.const(base, Real))
    if d[0] == 'arr':
        shape = []
        for x in d[2]:
            if x is None:
                n = SymNum(c.const('dim', Int))
                c.assume(n.t >= 0)
                x = n
            shape.append(x)
        return Arr.fresh(base, shape, d[1])
    if d[0] == 'set':
        s = SymSet()
        s.havoc()
        return s
    if d[0] == 'tuple':
        return tuple(fresh_value(x, base) for x in d[1])
    if d[0] == 'list':
        l = SymList()
        l.havoc_as(d[1] or 'int')
        return l
    if d[0] == 'dict':
        m = SymDict()
        m.havoc_as(d[1] or 'int')
        return m
    c.unsupported('loop modifies a value the verifier cannot generalise: %s' % (d,))


class LoopSpec:
    """Sidecar loop contract: entry(L, g) stores ghosts in g; inv(L, t, g) returns [(name, term)];
    L: view of the locals, t: number of completed iterations (term), g: ghost namespace (g.n = number of iterations)."""

    def __init__(self, entry=None, inv=None, types=None, roots=None, lemma=None, optional=False, done=None, dicts=(), become=None):
        self.entry, self.inv, self.types, self.roots = entry, inv, types or {}, roots
        # locals holding an empty container on entry, and what to make of it: a container of any size
        self.become = dict(become or {}, **{k: SymDict for k in dicts})
        self.lemma = lemma
        self.optional = optional


class NS(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise Unsupported('the loop no longer has a local named %s' % k)

    def __setattr__(self, k, v):
        self[k] = v


class CutLoop:
    def __init__(self, unit, key, spec, seq, locs):
        self.unit, self.key, self.spec = unit, key, spec
        self.c = Ctx.cur
        self.seq = seq
        self.state = 0
        self.values = {}
        self.g = NS()
        if seq is not None:
            self.g.n = dterm(seq[0])
            self.g.elem = seq[1]
        self.L0 = NS(locs)
        self.heap = unit.engine.heap

    # names to rebind in the frame
    def has(self, n):
        return n in self.values

    def val(self, n):
        return self.values[n]

    def _roots(self, locs):
        return [('L:' + k, v) for k, v in sorted(locs.items()) if not k.startswith('pv_')] + list(self.c.roots)

    def _inv(self, locs, t):
        try:
            return self.spec.inv(NS(locs), t, self.g) if self.spec.inv else []
        except (AttributeError, KeyError, TypeError, IndexError) as e:
            self.c.unsupported('invariant of %s no longer applies: %r' % (self.key, e))

    def start(self, locs):
        c = self.c
        self.t0 = z3.IntVal(0)
        made = {}
        for k, mk in self.spec.become.items():
            d = locs.get(k)
            if type(d) in (dict, list, SymList) and not d:
                made.setdefault(id(d), mk())
        for k, d in list(locs.items()):
            if id(d) in made:
                locs[k] = self.values[k] = made[id(d)]
        if self.spec.entry:
            try:
                self.spec.entry(NS(locs), self.g)
            except (AttributeError, KeyError, TypeError, IndexError) as e:
                c.unsupported('contract of loop %s no longer applies: %r' % (self.key, e))
        for name, term in self._inv(locs, self.t0):
            c.prove('%s: invariant on entry: %s' % (self.key, name), term)
        self.mods = self.unit.modset.setdefault(self.key, {})
        roots = self._roots(locs)
        self.havoc(locs, roots)
        exit_ = c.choose(2) == 1
        if self.seq is not None:
            n = dterm(self.seq[0])
            if exit_:
                self.t = n
            else:
                self.t = c.const('it', Int)
                c.assume(self.t >= 0, self.t < n)
        else:
            self.t = c.const('it', Int)
            c.assume(self.t >= 0)
        cur = dict(locs)
        cur.update(self.values)
        for name, term in self._inv(cur, self.t):
            c.assume(term)
        if self.spec.lemma and not exit_:
            for term in self.spec.lemma(NS(cur), self.t, self.g):
                c.assume(term)
        self.snap = self.heap.snapshot(self._roots(cur))
        self.localsnap = cur
        return exit_

    def havoc(self, locs, roots):
        c = self.c
        slots = {}
        for path, cont, key, v, cell in self.heap.walk(roots):
            slots.setdefault(('c' if cell is not None else 's', path), (cont, key, v, cell))
        for mk, d in list(self.mods.items()):
            kind, path = mk
            if self.covered(path):
                continue
            if kind == 'l':
                if path in locs:
                    ty = self.spec.types.get(path)
                    self.values[path] = ty(c) if ty else fresh_value(d, path)
                continue
            if mk not in slots:
                continue
            cont, key, v, cell = slots[mk]
            if kind == 's':
                ty = next((f for k, f in self.spec.types.items() if path.endswith(k)), None)
                cont[key] = ty(c) if ty else fresh_value(d, 'h')
            elif isinstance(cell, SymList):
                ty = next((f for k, f in self.spec.types.items() if path.endswith(k)), None)
                cell.havoc_as(ty or d[1] or 'int')
            elif isinstance(cell, SymDict):
                cell.havoc_as(d[1] or 'int')
            else:
                cell.havoc()

    def end_iteration(self, locs):
        """invariant again, frame, end of the path"""
        c = self.c
        locs = {k: v for k, v in locs.items()}
        changed = False
        for k, v in locs.items():
            if k.startswith('pv_') or k in self.unit.loop_targets.get(self.key, ()):
                continue
            if k in self.localsnap and not same_value(self.localsnap[k], v):
                changed |= self.add_mod(('l', k), descr(v, self.localsnap[k]), descr(self.localsnap[k], v))
        # heap: compare what was reachable at the head
        roots = self._roots(self.localsnap)
        now = self.heap.snapshot(roots)
        for mk, old in self.snap.items():
            if self.covered(mk[1]):
                continue
            if mk[0] == 'c':
                cell, ver = old
                if cell.version != ver:
                    d = ('list', list_kind(cell)) if isinstance(cell, SymList) else (
                        ('dict', dict_kind(cell)) if isinstance(cell, SymDict) else ('cell',))
                    changed |= self.add_mod(mk, d, None)
            else:
                cont, key, v = old
                if mk not in now:
                    nv = cont[key] if (isinstance(cont, dict) and key in cont) or isinstance(cont, list) else None
                else:
                    nv = now[mk][2]
                if not same_value(v, nv):
                    changed |= self.add_mod(mk, descr(nv, v), descr(v, nv))
        for mk, new in now.items():
            if self.covered(mk[1]):
                continue
            if mk not in self.snap and mk[0] == 's' and isinstance(new[0], dict) and not any(
                    m[0] == 's' and mk[1].startswith(m[1] + '.') for m in self.mods):
                if not any(m[0] == 's' and mk[1].startswith(m[1]) for m in self.mods):
                    c.unsupported('a loop iteration creates new heap slots: %s' % mk[1])
        if changed:
            c.die(Restart())
        for name, term in self._inv(locs, self.t + 1):
            c.prove('%s: invariant preserved: %s' % (self.key, name), term)
        c.die(EndPath())

    def covered(self, path):
        """below a slot that gets a whole arbitrary value of a declared type"""
        return any(k == 's' and len(path) > len(p) and path.startswith(p) and path[len(p)] in '.[#'
                   for k, p in self.mods if self.declared(p))

    def declared(self, path):
        return any(path.endswith(k) for k in self.spec.types)

    def add_mod(self, mk, d, d0):
        old = self.mods.get(mk)
        new = join_descr(old, d)
        if d0 is not None:
            new = join_descr(new, d0)
        if new[0] == 'mixed' and mk[1] not in self.spec.types and not any(
                mk[1].endswith(k) for k in self.spec.types):
            self.c.unsupported('a loop gives %s values of different kinds %s' % (mk[1], new))
        if new != old:
            self.mods[mk] = new
            return True
        return False

    # ---- for protocol
    def __iter__(self):
        return self

    def __next__(self):
        c = self.c
        c.alive()
        if self.state == 0:
            self.state = 1
            exit_ = self.start(dict(self.L0))
            if exit_:
                self.state = 2
                raise StopIteration
            return self.seq[1](self.t)
        if self.state == 1:
            self.end_iteration(dict(sys._getframe(1).f_locals))
        raise StopIteration

    # ---- while protocol
    def head(self, locs):
        self.c.alive()
        if self.state == 0:
            self.state = 1
            # both continuations go through the condition: no separate exit choice
            self.start_while(locs)
        else:
            self.end_iteration(dict(locs))

    def start_while(self, locs):
        c = self.c
        if self.spec.entry:
            self.spec.entry(NS(locs), self.g)
        for name, term in self._inv(locs, z3.IntVal(0)):
            c.prove('%s: invariant on entry: %s' % (self.key, name), term)
        self.mods = self.unit.modset.setdefault(self.key, {})
        self.havoc(locs, self._roots(locs))
        self.t = c.const('it', Int)
        c.assume(self.t >= 0)
        cur = dict(locs)
        cur.update(self.values)
        for name, term in self._inv(cur, self.t):
            c.assume(term)
        self.snap = self.heap.snapshot(self._roots(cur))
        self.localsnap = cur


class NativeWhile:
    def __init__(self, key):
        self.k, self.key = 0, key

    def has(self, n):
        return False

    def head(self, locs):
        Ctx.cur.alive()
        self.k += 1
        if self.k > UNROLL_LIMIT:
            Ctx.cur.unsupported('while loop %s without a contract does not terminate within %d iterations' % (
                self.key, UNROLL_LIMIT))


class NativeFor:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        Ctx.cur.alive()
        return next(self.it)

    def has(self, n):
        return False


# =====================================================================================================================
# comprehensions
# =====================================================================================================================
def listcomp_symbolic(seq, elt, conds, eager=False):
    """[elt(x) for x in seq if conds(x)] over a symbolic sequence"""
    c = Ctx.cur
    n, el = as_seq(seq)
    if isinstance(n, int):
        out = []
        for i in range(n):
            x = el(z3.IntVal(i))
            if all(bool(k(x)) for k in conds):
                out.append(elt(x))
        return SymList(out)
    if conds:
        # filter: positions satisfying the condition, in order
        m = pred_fn(n, el, conds)
        from .arrays import mask_select
        sel, cnt, rank = mask_select(Arr.make((n,), 'bool', m), with_rank=True)
        flt = SymMap(cnt, lambda j: el(sel(as_term(j))))
        flt.src, flt.rank, flt.keep = seq, rank, lambda i: And(i >= 0, i < dterm(n), m(i))
        return listcomp_symbolic(flt, elt, [], eager)
    b = z3.Const(c.name('j'), Int)
    dom = And(b >= 0, b < dterm(n))
    saved, c.effects = c.effects, ([] if eager and not c.sub else None)
    try:
        outs = c.summarise([b], dom, lambda: elt(el(b)))
        effects = c.effects or []
    finally:
        c.effects = saved
    outs = split_exceptions(outs, b, dom)
    for f in effects:          # effects on the elements of a list (by contract): one per element, in any order
        f(b, dom)
    r = SymList.of(n, value_fn(outs, b))
    if r.items is None and outs and all(isinstance(o[2], SymSet) for o in outs):
        f = r._fn
        r.set_members(lambda j, x: f(j).mem(x))
        src = seq
        while isinstance(src, SymMap) and getattr(src, 'src', None) is not None:
            src = src.src
        if isinstance(src, SymList):     # the elements are (possibly) those of the source list
            src.shared, r.parent = True, src
            if src is not seq and getattr(src, 'mem2', None) is not None and not c.sub:
                old, new, rank, keep = src.mem2, r.mem2, seq.rank, seq.keep
                c.assume(Forall([Int, Int], lambda i, x: Implies(keep(i), new(rank(i), x) == old(i, x)),
                                lambda i, x: [old(i, x)]))
    return r


def split_exceptions(outs, b, dom):
    c = Ctx.cur
    excs = [o for o in outs if o[1] == 'exc']
    vals = [o for o in outs if o[1] == 'val']
    for cond, _, e in excs:
        if c.entails(z3.ForAll([b], Implies(dom, Not(cond)))):
            continue
        if c.choose(2) == 1:
            w = c.const('bad', Int)
            c.assume(z3.substitute(And(dom, cond), (b, w)))
            raise e
        c.assume(z3.ForAll([b], Implies(dom, Not(cond))))
    if not vals:
        # the collection is necessarily empty
        c.assume(z3.ForAll([b], Not(dom)))
        return [(z3.BoolVal(True), 'val', 0)]
    return vals


def subst_value(v, pairs):
    if isinstance(v, (SymNum, SymBool)):
        return wrap(z3.simplify(z3.substitute(v.t, *pairs)))
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, Arr):
        rd = v.reader()
        shape = [subst_value(d, pairs) for d in v.shape]
        return Arr.make(shape, v.kind, lambda *ix: z3.substitute(rd(*ix), *pairs))
    if hasattr(v, 'pv_subst'):
        return v.pv_subst(pairs)
    if isinstance(v, SymSet):
        m = v.mem
        return SymSet(lambda x: z3.substitute(m(x), *pairs))
    if isinstance(v, SymList):
        if v.items is not None:
            return SymList([subst_value(x, pairs) for x in v.items])
        f = v._fn
        return SymList.of(subst_value(v._n, pairs), lambda i: subst_value(f(i), pairs))
    return v


def value_fn(outs, b):
    def fn(i):
        i = as_term(i)
        vs = [(z3.substitute(cond, (b, i)), subst_value(v, [(b, i)])) for cond, _, v in outs]
        r = vs[-1][1]
        for cond, v in reversed(vs[:-1]):
            r = merge(z3.simplify(cond), v, r)
        return r
    return fn


def pred_fn(n, el, conds):
    c = Ctx.cur
    b = z3.Const(c.name('j'), Int)
    dom = And(b >= 0, b < dterm(n))
    def body():
        x = el(b)
        r = True
        for k in conds:
            v = k(x)
            if isinstance(v, SymBool):
                r = v & r if r is not True else v
            elif not v:
                return False
        return r
    outs = split_exceptions(c.summarise([b], dom, body), b, dom)
    t = z3.BoolVal(False)
    parts = []
    for cond, _, v in outs:
        parts.append(And(cond, as_term(v if isinstance(v, (bool, SymBool)) else bool(v))))
    t = z3.simplify(Or(parts))
    return lambda i: z3.substitute(t, (b, as_term(i)))


class PV:
    """The object the rewritten source refers to as pv_rt."""

    def __init__(self, engine):
        self.engine = engine

    def loop(self, key, it, locs):
        c = Ctx.cur
        c.alive()
        if isinstance(it, GenExp):
            it = it.force()
        unit = c.unit
        spec = unit.loop_spec(key)
        if not is_symbolic_seq(it):
            return NativeFor(it)
        n, el = as_seq(it)
        if isinstance(n, int):
            return NativeFor([el(z3.IntVal(i)) for i in range(n)])
        if spec is None:
            c.unsupported('loop %s over a symbolic collection has no contract' % key)
        return CutLoop(unit, key, spec, (n, el), locs)

    def wloop(self, key, locs):
        c = Ctx.cur
        c.alive()
        spec = c.unit.loop_spec(key)
        if spec is None:
            return NativeWhile(key)
        return CutLoop(c.unit, key, spec, None, locs)

    def listcomp(self, it, elt, conds):
        if not is_symbolic_seq(it):
            return SymList([elt(x) for x in it if all(bool(k(x)) for k in conds)])
        return listcomp_symbolic(it, elt, conds, eager=True)

    def setcomp(self, it, elt, conds):
        return SymSet.from_seq(self.listcomp(it, elt, conds))

    def genexp(self, it, elt, conds):
        if not is_symbolic_seq(it):
            return (elt(x) for x in it if all(bool(k(x)) for k in conds))
        return GenExp(it, elt, conds)

    def dictcomp(self, it, kv, conds):
        l = self.listcomp(it, kv, conds)
        if l.items is not None:
            if all(not isinstance(k, (SymNum, SymBool)) for k, _ in l.items):
                return dict(l.items)
        n, e = l.n, l.elem
        return SymDict.from_pairs(n, lambda i: e(i)[0], lambda i: e(i)[1])

    def newlist(self):
        return SymList()

    def newset(self, items=()):
        return SymSet.from_seq(items)

    def newdict(self):
        return HybridDict()


class HybridDict(dict):
    """`{}` in the verified source: a native dict (string keys); symbolic integer keys make it leave the fragment."""
