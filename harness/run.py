"""Concrete cross-check, counterexample search and replay, run against the real code (real numpy / scipy / sklearn).

    run.py PROP --root DIR --seed N --tier quick|thorough --budget SECS --out FILE
    run.py --replay FILE [--root DIR]

The cases of a property are generated by harness/<prop>.py: first an exhaustive small scope, then seeded random ones.
"""
import argparse
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def jsonable(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, set):
        return sorted(jsonable(v) for v in x)
    return x


CASE_SECS = 60      # one small case that takes longer does not terminate


def too_long(sig, frame):
    raise RuntimeError('one case ran for more than %d s' % CASE_SECS)


def interface(e):
    """is this exception, raised in the harness itself, about a name or signature of the package (renamed internals) rather than about what it returned?"""
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, AttributeError):
        obj, name = getattr(e, 'obj', None), getattr(e, 'name', None) or str(e.args[0] if e.args else '')
        owner = getattr(obj, '__name__', '') if isinstance(obj, type(sys)) else getattr(obj if isinstance(obj, type) else type(obj), '__module__', '')
        return name.startswith('_') or str(owner).startswith('aideme')
    return isinstance(e, TypeError) and re.search(r"\(\) (got an unexpected|got multiple|missing|takes)", str(e)) is not None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--root', default=None)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=20.0)
    ap.add_argument('--out', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--case', default=None, help='JSON file with extra cases to run first (solver-seeded)')
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        a.prop = rec['property']
    root = a.root or os.environ.get('AIDEME_ROOT')
    if root:
        sys.path.insert(0, root)
    sys.path.insert(0, os.path.dirname(HERE))
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from harness import base
    signal.signal(signal.SIGALRM, too_long)
    res = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failure': None, 'known': [], 'error': None,
           'rule': '', 'complete': True}
    t0 = time.time()
    try:
        mod = importlib.import_module('harness.' + a.prop.lower())
        res['rule'] = mod.RULE
    except BaseException:
        res['error'] = traceback.format_exc()[-1500:]
        mod = None
    if mod is not None and a.replay:
        try:
            mod.check(rec['case'])
            print('the recorded case passes on this tree')
            sys.exit(0)
        except base.Skip as e:
            print('the recorded case does not apply: %s' % e)
            sys.exit(0)
        except Exception as e:
            print('FAILS: %s' % e if isinstance(e, base.Fail) else 'FAILS: ' + traceback.format_exc())
            sys.exit(1)
    if mod is not None:
        def gen():
            if a.case and os.path.exists(a.case):
                yield from json.load(open(a.case))
            yield from mod.cases(a.seed, a.tier)
        seen, broken = set(), 0
        it = gen()
        while True:
            if time.time() - t0 > a.budget:
                res['complete'] = False
                break
            try:
                case = next(it)
            except StopIteration:
                break
            res['evaluations'] += 1
            try:
                np.random.seed((a.seed * 7919 + res['evaluations']) % 2 ** 31)
                signal.alarm(CASE_SECS)
                info = mod.check(case)
                signal.alarm(0)
                if info:
                    key = json.dumps(jsonable(case), sort_keys=True, default=str)
                    h = hash(key)
                    if h not in seen:
                        seen.add(h)
                        if len(res['samples']) < 4:
                            res['samples'].append(key[:300])
            except base.Skip:
                signal.alarm(0)
                continue
            except base.Fail as e:
                signal.alarm(0)
                small = base.shrink(mod, jsonable(case))
                res['failure'] = {'case': small[0], 'message': small[1] or str(e)}
                break
            except Exception as e:
                signal.alarm(0)
                tb = traceback.format_exc()
                if '/aideme/' not in tb and interface(e):
                    if not res['error']:
                        res['error'] = tb[-1500:]
                    broken += 1
                    if broken > 200:
                        break
                    continue
                res['failure'] = {'case': jsonable(case), 'message': 'unexpected exception: ' + tb[-1200:]}
                break
        res['distinct_nontrivial'] = len(seen)
        for kf in getattr(mod, 'KNOWN', []):
            try:
                if kf['probe']():
                    res['known'].append(kf['id'])
            except Exception:
                res['known'].append(kf['id'])
    res['secs'] = time.time() - t0
    txt = json.dumps(jsonable(res))
    if a.out:
        open(a.out, 'w').write(txt)
    else:
        print(txt)


if __name__ == '__main__':
    main()
