"""Apply each planted change to a scratch copy of /repo and run its property's check on that.
try_seeds.py [-j N] [-d outfile] [id-substring ...]"""
import concurrent.futures, json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
args = sys.argv[1:]
jobs = 1
if args[:1] == ['-j']:
    jobs, args = int(args[1]), args[2:]
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout
results = {}


def trial(d):
    prop = json.load(open(os.path.join(S, d, 'meta.json')))['property']
    with tempfile.TemporaryDirectory(prefix='seed_') as t:
        root = os.path.join(t, 'repo')
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        subprocess.run(['git', '-C', root, 'apply', os.path.join(S, d, 'patch.diff')], check=True)
        w = os.path.join(t, 'verif')
        subprocess.run('mkdir %s && cd %s && git ls-files -co --exclude-standard | grep -v ^seeded/ | tar cf - -T - | tar xf - -C %s' % (w, V, w), shell=True, check=True)
        t0 = time.time()
        r = subprocess.run(['python3', 'check.py', prop, '--tier', 'quick'], cwd=w, capture_output=True, text=True, env=dict(os.environ, AIDEME_REPO=root, VERIF_SEED='1'))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-32s %s rc=%d %.0fs %s' % (d, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t0, v[:1]), flush=True)
    return d, 'missed' if not (r.returncode == 1 and v) else 'caught (obligation)' if v[0].endswith('no-failing-input-found') else 'caught (failing input)'


todo = [d for d in sorted(os.listdir(S)) if not args or any(a in d for a in args)]
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    new = dict(ex.map(trial, todo))
out = os.path.join(V, 'tools', 'seed_results.json')
R = json.load(open(out)) if os.path.exists(out) else {}
R.update(new)
R = {k: v for k, v in R.items() if os.path.isdir(os.path.join(S, k))}
json.dump(R, open(out, 'w'), indent=1, sort_keys=True)
