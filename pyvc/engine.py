"""Runs the contracts (units) of a property on the current source of /repo."""
import importlib
import os
import sys
import time
import traceback

import z3

from . import core, loader as loader_mod, loops, spstub, builtins_
from .core import Ctx, EndPath, Obligation, Restart, Unsupported, discharge

MAX_RESTARTS = 12


class Unit:
    """One contract: a driver that builds arbitrary inputs satisfying the precondition, calls the real code and states the
    postconditions."""

    def __init__(self, engine, name, fn, loops=None, covers=(), max_paths=core.MAX_PATHS, budget=240):
        self.engine, self.name, self.fn = engine, name, fn
        self.loops = loops or {}
        self.modset = {}
        self.loop_targets = loader_mod.TARGETS
        self.max_paths = max_paths
        self.budget = budget
        self.work = []
        self.obs = []

    def loop_spec(self, key):
        s = self.loops.get(key)
        return s

    def record(self, ob):
        self.obs.append(ob)

    def run(self):
        """dict(status, obligations, ...)"""
        t0 = time.time()
        res = {'unit': self.name, 'paths': 0, 'restarts': 0, 'reason': None, 'covers': {}, 'loops_cut': set()}
        for attempt in range(MAX_RESTARTS):
            self.work, self.obs = [[]], []
            self.covers, ends, again = {}, {}, False
            paths = 0
            while self.work:
                prefix = self.work.pop()
                paths += 1
                if paths > self.max_paths:
                    res['reason'] = 'more than %d paths' % self.max_paths
                    break
                if time.time() - t0 > self.budget:
                    res['reason'] = 'time budget of the unit exhausted'
                    break
                kind, info, c = self.run_path(prefix)
                if kind == 'restart':
                    again = True
                    break
                if kind == 'unsupported':
                    res['reason'] = info
                    break
                if kind in ('done', 'end'):
                    lab = 'done' if kind == 'done' else 'loop ' + str(c.trace[-1] if c.trace else '')
                    ok = ends.get(lab, 0)
                    if ok < 2:
                        ends[lab] = ok + (0 if core.contradictory(c.facts) else 1)
                if kind == 'exc':
                    s, be, det = discharge(c.facts, z3.BoolVal(False), try_cvc5=False, rlimit=10_000_000)
                    soft = isinstance(info, (AttributeError, TypeError, NameError, NotImplementedError, AssertionError,
                                             RecursionError, z3.Z3Exception))
                    # raised by the contract's own code: what it looks at has another form now
                    soft = soft or not any('/aideme/' in f.filename for f in traceback.extract_tb(info.__traceback__))
                    if s != 'proved' and soft:
                        res['reason'] = 'unexpected %s: %s @ %s' % (type(info).__name__, str(info)[:200], where(info))
                        break
                    self.record(Obligation('no exception escapes: %s(%s) at %s' % (
                        type(info).__name__, str(info)[:80], where(info)), self.name, s, be, 0.0, det))
            if not again:
                break
            res['restarts'] += 1
        else:
            res['reason'] = 'loop frames do not stabilise'
        res['paths'] = paths
        obs = self.obs
        res['obligations'] = obs
        failed = [o for o in obs if o.status == 'failed']
        unknown = [o for o in obs if o.status == 'unknown']
        if failed and not res['reason']:
            res['status'] = 'failed'
        elif res['reason']:
            res['status'] = 'out_of_reach'
        elif unknown:
            res['status'] = 'undecided'
        elif not obs:
            res['status'], res['reason'] = 'out_of_reach', 'no obligation was generated'
        elif not any(ends.values()) or any(v == 0 for v in self.covers.values()):
            res['status'], res['reason'] = 'out_of_reach', 'vacuous: every path contradicts the assumptions'
        else:
            res['status'] = 'proved'
        res['ends'] = ends
        res['covers'] = dict(self.covers)
        res['secs'] = time.time() - t0
        return res

    def run_path(self, prefix):
        c = Ctx(self, prefix)
        Ctx.cur = c
        kind, info = 'done', None
        try:
            self.engine.reset(c)
            self.fn()
            if c.dead is not None:
                raise c.dead
        except EndPath:
            kind = 'end'
        except Restart:
            kind = 'restart'
        except Unsupported as e:
            kind, info = 'unsupported', str(e) + ' @ ' + where(e)
        except Exception as e:
            if c.dead is not None:
                e = c.dead
                kind = {EndPath: 'end', Restart: 'restart', Unsupported: 'unsupported'}[type(e)]
                info = str(e)
            else:
                kind, info = 'exc', e
                if os.environ.get('PV_DEBUG'):
                    traceback.print_exc()
        finally:
            for undo in reversed(c.undo):
                undo()
            Ctx.cur = self.engine.idle
        return kind, info, c


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/aideme/' in f.filename:
            return '%s:%d %s' % (f.filename.split('/aideme/')[-1], f.lineno, f.name)
    return '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'


def cover(label):
    """the driver claims this point is reachable"""
    c = Ctx.cur
    u = c.unit
    if u.covers.get(label, 0) == 0:
        s = 'proved' if core.contradictory(c.facts) else ''
        u.covers[label] = u.covers.get(label, 0) + (0 if s == 'proved' else 1)


class _IdleUnit:
    engine = None
    name = 'import'
    work = []

    def record(self, ob):
        pass


class Engine:
    def __init__(self, repo='/repo', overrides=None):
        self.repo = repo
        self.heap = loops.Heap(self)
        self.builtins = builtins_.table()
        self.module_overrides = dict(overrides or {})
        self.idle = None
        u = _IdleUnit()
        u.engine = self
        self.idle = Ctx(u, [])
        self.idle.unit = None
        Ctx.cur = self.idle
        self.mods = spstub.modules()
        self.loader = loader_mod.Loader(self, repo)
        sys.meta_path.insert(0, self.loader)
        self.saved = {}

    def load(self, *names):
        if all(n in sys.modules for n in names):
            out = [sys.modules[n] for n in names]
            return out if len(out) > 1 else out[0]
        if Ctx.cur is not self.idle and Ctx.cur is not None:
            # loaded lazily by a driver: the module bodies run concretely, outside the path
            prev = Ctx.cur
            try:
                Ctx.cur = self.idle
                return self.load(*names)
            finally:
                Ctx.cur = prev
        Ctx.cur = self.idle
        u = _IdleUnit()
        u.engine = self
        self.idle.unit = u
        import warnings, pickle, random, logging, functools, typing, enum  # real modules, before the stubs
        saved = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)
        try:
            out = [importlib.import_module(n) for n in names]
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            self.idle.unit = None
        ml = sys.modules.get('aideme.utils.metric_logger')
        if ml is not None and 'perf_counter' in ml.__dict__:
            ml.perf_counter = lambda: 0.0
        return out if len(out) > 1 else out[0]

    def reset(self, c):
        ml = sys.modules.get('aideme.utils.metric_logger')
        if ml is not None and hasattr(ml, 'flush'):
            ml.flush()
