#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]  - decides one property of /repo (exit 0 held, 1 violation).

1. the contracts of the property (contracts/) are executed on the current source of /repo: every obligation goes to z3
   (cvc5 second);
2. the real code (scratch copy of /repo/aideme, extension rebuilt) is run by the concrete harness: cross-check of the
   contracts, search and replay of counterexamples, bounded stand-in for functions out of the verifier's reach.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = 'python3-vt'
VENV = os.environ.get('AIDEME_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('AIDEME_REPO', '/repo')
sys.path.insert(0, HERE)


def scratch_copy(dst, build):
    root = os.path.join(dst, 'src')
    os.makedirs(root)
    shutil.copytree(os.path.join(REPO, 'aideme'), os.path.join(root, 'aideme'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.c', '*.cpp', 'build'))
    err = None
    if build:
        for f in ('setup.py', 'README.md'):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), root)
        env = dict(os.environ, HOME=dst, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([VENV, 'setup.py', '-q', 'build_ext', '--inplace', '--use-cython'], cwd=root, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode != 0:
            err = r.stdout.decode(errors='replace')[-1500:]
    return root, err


def run_unit_child(args):
    k, prop, budget = args
    import resource
    from pyvc import engine as eng
    try:
        units = _units(prop)
        u = units[k]
        if budget:
            u.budget = budget
        r = u.run()
        return dict(unit=r['unit'], status=r['status'], paths=r['paths'], restarts=r['restarts'], reason=r['reason'],
                    secs=r['secs'], covers={k: v for k, v in r['covers'].items()},
                    obs=[(o.name, o.status, o.backend, o.secs, o.detail[:3000] if o.status != 'proved' else '')
                         for o in r['obligations']])
    except BaseException as e:
        import traceback
        return dict(unit='unit %d' % k, status='out_of_reach', paths=0, restarts=0, reason='verifier: %s' %
                    traceback.format_exc()[-600:], secs=0.0, covers={}, obs=[])


_CACHE = {}


def _units(prop):
    if prop not in _CACHE:
        from pyvc.engine import Engine
        from contracts import registry
        E = _CACHE.get('engine')
        if E is None:
            E = _CACHE['engine'] = Engine(REPO)
        _CACHE[prop] = registry.units(E, prop)
    return _CACHE[prop]


def proofs(prop, tier, out):
    """child process under python3-vt: run every unit of the property (8 processes), write JSON"""
    t0 = time.time()
    try:
        units = _units(prop)
        names = [u.name for u in units]
        err = None
    except BaseException as e:
        import traceback
        units, names, err = [], [], traceback.format_exc()[-1500:]
    res = []
    if units:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(8, len(units)), maxtasksperchild=1) as pool:
            order = list(range(len(units)))
            budget = 700 if tier == 'thorough' else 200
            for r in pool.imap_unordered(run_unit_child, [(k, prop, budget) for k in order], chunksize=1):
                res.append(r)
    from contracts import registry
    json.dump(dict(units=res, error=err, secs=time.time() - t0, assumptions=registry.assumptions(prop),
                   functions=registry.functions(prop)), open(out, 'w'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--proofs', default=None)
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    prop = a.prop
    if a.proofs:
        proofs(prop, a.tier, a.proofs)
        return 0
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='aideme_verif_')
    try:
        return decide(prop, a.tier, seed, tmp, t0, a.budget)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)




def decide(prop, tier, seed, tmp, t0, hbudget):
    pout, hout = os.path.join(tmp, 'proofs.json'), os.path.join(tmp, 'harness.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    pp = subprocess.Popen([VT, os.path.join(HERE, 'check.py'), prop, '--tier', tier, '--proofs', pout], env=env,
                          stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, 'perr'), 'w'))
    root, berr = scratch_copy(tmp, True)
    henv = dict(env, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME=tmp, MPLCONFIGDIR=tmp)
    hb = hbudget or (300 if tier == 'thorough' else 40)
    hp = subprocess.Popen([VENV, os.path.join(HERE, 'harness', 'run.py'), prop, '--root', root, '--seed', str(seed),
                           '--tier', tier, '--budget', str(hb), '--out', hout], env=henv, cwd=tmp,
                          stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, 'herr'), 'w'))
    limit = 870 if tier == 'thorough' else 600
    for p in (hp, pp):
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    def load(f):
        try:
            return json.load(open(f))
        except Exception:
            return None
    P, H = load(pout), load(hout)
    P = P or dict(units=[], error='no result: ' + open(os.path.join(tmp, 'perr')).read()[-800:], secs=0, assumptions=[],
                  functions=[])
    H = H or dict(evaluations=0, distinct_nontrivial=0, samples=[], failure=None, known=[], rule='',
                  error='no result: ' + open(os.path.join(tmp, 'herr')).read()[-800:], secs=0, complete=False)
    if berr:
        H['error'] = (H['error'] or '') + ' build: ' + berr
    return report(prop, tier, seed, P, H, t0)


def report(prop, tier, seed, P, H, t0):
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    obs = [(u['unit'], *o) for u in P['units'] for o in u['obs']]
    failed_units = [u for u in P['units'] if u['status'] == 'failed']
    bounded = [u for u in P['units'] if u['status'] in ('out_of_reach', 'undecided')]
    violations = []
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    open_f = {k['id']: k for k in known['findings'] if k['property'] == prop}
    for k in H['known']:
        if k in open_f:
            print('KNOWN-FINDING: property=%s %s' % (prop, open_f[k]['what']))
    replay = os.path.join(evd, '%s_replay.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    failed_obs = [dict(unit=o[0], obligation=o[1], backend=o[3], solver_output=o[5])
                  for o in obs if o[2] == 'failed' and any(u['unit'] == o[0] for u in failed_units)]
    if H['failure']:
        json.dump(dict(property=prop, kind='failing input on the real code', case=H['failure']['case'],
                       message=H['failure']['message'], failed_obligations=failed_obs[:10],
                       how_to_replay='%s %s/harness/run.py --replay <this file> --root /repo' % (VENV, HERE)),
                  open(replay, 'w'), indent=1)
        print('%s: %s' % (prop, H['failure']['message'][:600]))
        for f in failed_obs[:5]:
            print('  failed obligation: [%s] %s' % (f['unit'], f['obligation']))
        violations.append('VIOLATION property=%s replay=%s' % (prop, replay))
    elif failed_obs:
        json.dump(dict(property=prop, kind='failed obligation, no failing input found', failed_obligations=failed_obs[:20]),
                  open(replay, 'w'), indent=1)
        for f in failed_obs[:5]:
            print('  failed obligation: [%s] %s' % (f['unit'], f['obligation']))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    n_ob, n_ok = len(obs), sum(1 for o in obs if o[2] == 'proved')
    backends = {}
    for o in obs:
        if o[2] == 'proved':
            backends[o[3]] = backends.get(o[3], 0) + 1
    proved_units = [u['unit'] for u in P['units'] if u['status'] == 'proved']
    cov = dict(obligations=n_ob, discharged=n_ok, checker_cmd='cd %s && %s check.py %s --proofs /tmp/out.json' % (HERE, VT, prop),
               trusted_base=['CPython 3.12 executing the verified source', 'pyvc (/verif/pyvc): path exploration, loop cutting, '
                             'symbolic numpy semantics', 'z3 5.x, cvc5 1.x'],
               functions_under_contract=P['functions'], units_proved=proved_units,
               discharged_by=backends, solver_seconds=round(sum(o[4] for o in obs), 2),
               units=[dict(unit=u['unit'], status=u['status'], obligations=len(u['obs']), paths=u['paths'],
                           seconds=round(u['secs'], 2), reason=u['reason']) for u in P['units']],
               bounded_not_proved=[dict(unit=u['unit'], reason=u['reason'] or 'solver gave no answer') for u in bounded],
               evaluations=H['evaluations'], distinct_nontrivial=H['distinct_nontrivial'], rule=H['rule'],
               samples=H['samples'][:4],
               bounded_check=dict(what='concrete harness on the real code: cross-check of the contracts, counterexample '
                                  'search, bounded stand-in for units not proved', evaluations=H['evaluations'],
                                  exhausted_its_cases=H['complete'], error=H['error']))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=P['assumptions'], violations=len(violations))
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d units (%d proved, %d failed, %d bounded only); harness: %d cases; %.1f s' % (
        prop, n_ok, n_ob, len(P['units']), len(proved_units), len(failed_units), len(bounded), H['evaluations'],
        time.time() - t0))
    for u in bounded:
        print('  bounded, not proved: %s: %s' % (u['unit'], u['reason'] or 'solver gave no answer'))
    if P['error']:
        print('  contracts could not be run: %s' % P['error'][-300:])
    if H['error']:
        print('  harness: %s' % H['error'][-600:])
    for v in violations:
        print(v)
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
