"""Every check on mechanically rewritten copies of the package.  try_refactor.py [-p C01,C02] [KIND ...]"""
import os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
args = sys.argv[1:]
props = ['C%02d' % i for i in range(1, 31)]
if args[:1] == ['-p']:
    props = args[1].split(',')
    args = args[2:]
from refactor import KINDS
for kind in args or KINDS:
    dst = '/tmp/refactored_' + kind
    subprocess.run(['python3', '-W', 'ignore', os.path.join(V, 'tools', 'refactor.py'), kind, dst], check=True)
    for p in props:
        t = time.time()
        r = subprocess.run(['python3', 'check.py', p, '--tier', 'quick'], cwd=V, capture_output=True, text=True, env=dict(os.environ, AIDEME_REPO=dst, VERIF_SEED='1'))
        m = re.search(r'in (\d+) units \((\d+) proved, (\d+) failed, (\d+) bounded only\); harness: (\d+)', r.stdout)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-8s %s rc=%d %3.0fs %s %s' % (kind, p, r.returncode, time.time() - t, 'units %s proved %s failed %s bounded %s harness %s' % m.groups() if m else '?', v), flush=True)
        if r.returncode or 'harness:' in r.stdout.splitlines()[-1] or 'contracts could not' in r.stdout:
            print(r.stdout[-1500:], r.stderr[-500:], flush=True)
    subprocess.run(['rm', '-rf', dst])
