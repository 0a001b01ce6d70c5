"""Create and confirm a planted bug: plant.py SPEC.json  (id, property, file, old, new, demo, needs, what_it_breaks).
The change lives in a scratch copy of /repo only; the result is written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=e)


def plant(sp):
    out = os.path.join(VERIF, 'seeded', sp['id'])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'demo.py'), 'w').write(sp['demo'])
    open(os.path.join(out, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': sp['property'], 'needs': sp['needs'], 'what_it_breaks': sp['what_it_breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        ok0 = sh('bash %s/demo.sh' % out, r)
        edits = sp.get('edits') or [[sp['file'], sp['old'], sp['new']]]
        for f, old, new in edits:
            s = open(os.path.join(r, f)).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(os.path.join(r, f), 'w').write(s.replace(old, new))
        d = sh('git diff', r).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        ok1 = sh('bash %s/demo.sh' % out, r)
        test = sh('/opt/venv/bin/python -m pytest -q tests/test_one_dim_convex.py 2>&1 | tail -2', r)
        print(sp['id'], 'clean rc', ok0.returncode, 'bug rc', ok1.returncode, test.stdout.strip().splitlines()[-1:])
        if ok0.returncode:
            print(ok0.stdout[-1500:], ok0.stderr[-1500:])
        elif not ok1.returncode:
            print('   NOT DEMONSTRATED')
        else:
            print('   ', (ok1.stderr or ok1.stdout).strip().splitlines()[-1:])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    import runpy
    for f in sys.argv[1:]:
        for sp in runpy.run_path(f)['SPECS']:
            plant(sp)
