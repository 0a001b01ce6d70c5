"""Validators and the metric logger (C23)."""
import itertools
import math

import numpy as np

from harness.base import Fail, req, rng_of, raises

RULE = ('every validator on a list of boundary values of every type, with every combination of its options; histories of up to 4 logging '
        'operations on two metrics; non-trivial: always')
VALS = [0, 1, -1, 5, 10**20, -10**20, 0., 1., -0., .5, -.5, 1e-320, -1e-320, 1e308, math.inf, -math.inf, math.nan, None, '1', [1], (1,), {}]
OPS = [('log', k, p) for k in 'ab' for p in ('overwrite', 'sum', 'append', 'SUM', 'bad')] + [('flush', '', ''), ('logs', 'ab', 'sum'), ('logs', 'ab', ''), ('odd', 'a', 0), ('odd', 'b', 1), ('odd', 'a', 2), ('odd', 'b', 3), ('oddapp', 'a', 0), ('oddapp', 'a', 1), ('oddapp', 'b', 2), ('oddapp', 'b', 3)]
ODD = [[], None, '', {}]


def cases(seed, tier):
    for k in range(len(VALS)):
        yield {'val': k}
    for n in (1, 2):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield {'ops': list(ops)}
    r = rng_of(seed, 23)
    for _ in range(10000 if tier == 'thorough' else 1000):
        yield {'ops': [r.randrange(len(OPS)) for _ in range(r.randint(3, 8))]}
    for p in (None, 'sum', 'append', 'overwrite'):
        yield {'timed': p}


def check(case):
    import aideme.utils.validation as V
    import aideme.utils.metric_logger as ml
    if 'val' in case:
        v = VALS[case['val']]
        for nm, low, integer in (('assert_positive', 1, 0), ('assert_non_negative', 0, 0), ('assert_positive_integer', 1, 1), ('assert_non_negative_integer', 0, 1)):
            for inf, none in itertools.product((None, False, True), repeat=2):
                kw = {}
                if inf is not None:
                    kw['allow_inf'] = inf
                if none is not None:
                    kw['allow_none'] = none
                if v is None:
                    ok = bool(none)
                elif not isinstance(v, (int, float)) or v != v:
                    ok = False
                elif v == math.inf:
                    ok = bool(inf)
                else:
                    ok = (v > 0 if low else v >= 0) and (isinstance(v, int) or not integer)
                got = not raises((ValueError, TypeError), getattr(V, nm), v, 'x', **kw)
                req(got == ok, '%s(%r, %s) %s', nm, v, kw, 'accepted' if got else 'rejected')
        if isinstance(v, (int, float)):
            for lo, hi in ((0, 1), (-1, 5), (.5, .5), (-math.inf, math.inf), (0, math.inf)):
                got = not raises(ValueError, V.assert_in_range, v, 'x', lo, hi)
                req(got == (lo <= v <= hi), 'assert_in_range(%r, %r, %r) %s', v, lo, hi, 'accepted' if got else 'rejected')
        f = lambda: 1
        req(V.process_callback(f) == [f] and list(V.process_callback(None)) == [] and list(V.process_callback([f, f])) == [f, f], 'callbacks')
        if v is not None and not isinstance(v, (list, tuple, dict, str)):
            req(raises((ValueError, TypeError), V.process_callback, [f, v]), 'callback %r accepted', v)
        return True
    if 'timed' in case:
        p = case['timed']
        ml.flush()
        calls = []

        def fn(a, b=2):
            """doc"""
            calls.append((a, b))
            return ('result', a)
        g = ml.log_execution_time('t', on_duplicates=p)(fn) if p else ml.log_execution_time('t')(fn)
        req(ml.get_metrics() == {} and not calls, 'decorating')
        req(g(7, b=3) == ('result', 7) and calls == [(7, 3)], 'result of a timed function')
        m = dict(ml.get_metrics())
        req(set(m) == {'t'}, 'metrics %s', m)
        v = m['t'][0] if p == 'append' else m['t']
        req(isinstance(v, float) and 0 <= v < 60, 'time %s', v)
        if p in (None, 'overwrite'):
            ml.log_metric('t', -1.)
        g(8)
        w = ml.get_metrics()['t']
        if p == 'append':
            req(len(w) == 2, 'appended times %s', w)
        elif p == 'sum':
            req(w >= v, 'summed times')
        else:
            req(w >= 0, 'the second call did not log its time')
        ml.flush()

        def bad():
            raise KeyError('own error')
        req(raises(KeyError, ml.log_execution_time('t')(bad)), 'errors of a timed function')
        return True
    ml.flush()
    ref = {}
    handed = []
    for n, o in enumerate(case['ops']):
        op, ks, p = OPS[o]
        if op == 'flush':
            old = ml.get_metrics()
            handed.append((old, {k: (list(v) if isinstance(v, list) else v) for k, v in old.items()}))
            ml.flush()
            ref = {}
            req(ml.get_metrics() == {}, 'metrics after a flush: %s', ml.get_metrics())
        else:
            if op == 'odd':
                ml.log_metric(ks, ODD[p])
                ref[ks] = ODD[p]
                req(ml.get_metrics() == ref, 'metrics %s instead of %s', ml.get_metrics(), ref)
                break_at = case['ops'][n + 1:n + 2]
                if break_at and OPS[break_at[0]][0] != 'flush':
                    break
                continue
            if op == 'oddapp':
                if ks in ref and (not isinstance(ref[ks], list) or not ref[ks]):
                    break
                ml.log_metric(ks, ODD[p], 'append')
                ref[ks] = list(ref.get(ks, [])) + [ODD[p]]
                req(ml.get_metrics() == ref, 'metrics %s instead of %s', ml.get_metrics(), ref)
                continue
            vals = {k: 10 ** n * (1 + j) * (-1) ** (n // 2 + j + n) for j, k in enumerate(ks)}
            pol = (p or 'overwrite').lower()
            if any((pol == 'sum' and isinstance(ref.get(k), list)) or (pol == 'append' and k in ref and not isinstance(ref[k], list)) for k in ks):
                break               # a metric is used with one policy
            if pol == 'bad':
                req(raises(ValueError, ml.log_metric, ks, 1, p), 'unknown policy accepted')
            else:
                if op == 'log':
                    ml.log_metric(ks, vals[ks], p)
                elif p:
                    ml.log_metrics(vals, p)
                else:
                    ml.log_metrics(vals)
                for k, v in vals.items():
                    if pol == 'overwrite':
                        ref[k] = v
                    elif pol == 'sum':
                        ref[k] = ref.get(k, 0) + v
                    else:
                        ref[k] = list(ref.get(k, [])) + [v]
        req(ml.get_metrics() == ref, 'metrics %s instead of %s', ml.get_metrics(), ref)
        for h, c in handed:
            req(h == c, 'metrics handed out changed from %s to %s', c, h)
    ml.flush()
    return True
