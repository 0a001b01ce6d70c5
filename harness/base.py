"""Shared by the concrete harnesses."""
import itertools
import random

import numpy as np


class Fail(Exception):
    """the property is violated by the real code on this input"""


class Skip(Exception):
    """the case is outside the property's precondition"""


def req(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def raises(exc, fn, *a, **k):
    try:
        fn(*a, **k)
    except exc:
        return True
    return False


def shrink(mod, case, tries=150):
    """smaller failing case, if the module knows how to make candidates"""
    cand = getattr(mod, 'smaller', None) or default_smaller
    msg = None
    n = 0
    cur = case
    again = True
    while again and n < tries:
        again = False
        for c in cand(cur):
            n += 1
            if n > tries:
                break
            try:
                np.random.seed(12345)
                mod.check(c)
            except Fail as e:
                cur, msg, again = c, str(e), True
                break
            except Exception:
                continue
    return cur, msg


def default_smaller(case):
    """drop one operation of a history"""
    if isinstance(case, dict) and isinstance(case.get('ops'), list):
        ops = case['ops']
        for i in reversed(range(len(ops))):
            yield dict(case, ops=ops[:i] + ops[i + 1:])


def rng_of(seed, salt=0):
    return random.Random(seed * 1000003 + salt)
