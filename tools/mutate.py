"""Small mechanical changes to the package, each kept only if the existing tests still pass; which checks notice.
mutate.py [-j N] [-n COUNT] [-s SEED] OUT [path-substring ...]"""
import ast, concurrent.futures, copy, json, os, random, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(src):
    """(line, description, new source) for each single change"""
    tree = ast.parse(src)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def rep(n, new):
        a, b = pos(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
    BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.Pow: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.FloorDiv: ['/'], ast.Mod: ['//']}
    inf = lambda n: any(isinstance(p, (ast.FunctionDef,)) for p in chain(n))

    def chain(n):
        while n in parents:
            n = parents[n]
            yield n
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or not inf(n):
            continue
        if any(isinstance(p, (ast.Raise, ast.arg, ast.AnnAssign)) for p in [n] + list(chain(n))):
            continue
        fd = [p for p in chain(n) if isinstance(p, ast.FunctionDef)][0]
        if fd.name == '__repr__' or n in ast.walk(fd.args) and not n in fd.args.defaults or fd.returns is not None and n in ast.walk(fd.returns):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield n.lineno, 'cmp ' + o, rep(n, '(%s %s %s)' % (text(n.left), o, text(n.comparators[0])))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield n.lineno, 'bin ' + o, rep(n, '(%s %s %s)' % (text(n.left), o, text(n.right)))
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield n.lineno, 'bool' + o, rep(n, '(' + o.join(text(v) for v in n.values) + ')')
            yield n.lineno, 'drop last', rep(n, '(' + text(n.values[0]) + ')')
            yield n.lineno, 'drop first', rep(n, '(' + text(n.values[-1]) + ')')
        elif isinstance(n, ast.UnaryOp):
            yield n.lineno, 'drop unary', rep(n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield n.lineno, 'const+1', rep(n, '(%r)' % (n.value + 1))
            if n.value:
                yield n.lineno, 'const 0', rep(n, '0')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n.lineno, 'flip bool', rep(n, repr(not n.value))
        elif isinstance(n, (ast.If, ast.While)):
            yield n.lineno, 'cond true', rep(n.test, '(%s or True)' % text(n.test)) if isinstance(n, ast.If) else None
            yield n.lineno, 'cond false', rep(n.test, '(%s and False)' % text(n.test))
        elif isinstance(n, ast.IfExp):
            yield n.lineno, 'ifexp body', rep(n, '(%s)' % text(n.body))
            yield n.lineno, 'ifexp else', rep(n, '(%s)' % text(n.orelse))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            yield n.lineno, 'drop stmt', rep(n, 'pass')
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            yield n.lineno, 'drop assign', rep(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            yield n.lineno, 'return None', rep(n, 'return None')
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                s = (raw[:pos(a)[0]] + text(b).encode() + raw[pos(a)[1]:pos(b)[0]] + text(a).encode() + raw[pos(b)[1]:]).decode()
                yield n.lineno, 'swap args', s
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, b = pos(k)
                    pre = raw[:a].decode().rstrip()
                    post = raw[b:].decode()
                    if pre.endswith(','):
                        yield n.lineno, 'drop kw ' + k.arg, pre[:-1] + post
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy',):
                yield n.lineno, 'no copy', rep(n, text(n.func.value))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('min', 'max', 'any', 'all', 'argmin', 'argmax', 'hstack', 'vstack', 'minimum', 'maximum'):
                o = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'argmin': 'argmax', 'argmax': 'argmin', 'hstack': 'vstack', 'vstack': 'hstack', 'minimum': 'maximum', 'maximum': 'minimum'}[n.func.attr]
                yield n.lineno, 'call ' + o, rep(n.func, text(n.func.value) + '.' + o)
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None:
                yield n.lineno, 'slice low', rep(n.lower, '(%s) + 1' % text(n.lower))
            if n.upper is not None:
                yield n.lineno, 'slice up', rep(n.upper, '(%s) - 1' % text(n.upper))


def anchors():
    m = {}
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        for f in set(re.findall(r'aideme/[\w/]+\.py\b', l)):
            m.setdefault(f, []).append(p['id'])
    return m


def functions():
    m = {}
    for f in os.listdir(os.path.join(V, 'evidence')):
        if re.fullmatch(r'C\d\d\.json', f):
            for n in json.load(open(os.path.join(V, 'evidence', f)))['coverage'].get('functions_under_contract', []):
                m.setdefault(re.sub(r'\W.*', '', n.split('.')[-1]), set()).add(f[:-5])
    return m


def trial(job):
    f, line, what, src, order = job
    with tempfile.TemporaryDirectory(prefix='mut_') as t:
        root = os.path.join(t, 'repo')
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        old = open(os.path.join(root, f)).read()
        open(os.path.join(root, f), 'w').write(src)
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests/test_one_dim_convex.py'], cwd=root, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1'))
        if r.returncode:
            return dict(file=f, line=line, what=what, status='killed by tests')
        w = os.path.join(t, 'verif')
        subprocess.run('mkdir %s && cd %s && git ls-files -co --exclude-standard | grep -v ^seeded/ | tar cf - -T - | tar xf - -C %s' % (w, V, w), shell=True, check=True)
        st, res = 'survived', []
        for p in order:
            t0 = time.time()
            r = subprocess.run(['timeout', '900', 'python3', 'check.py', p, '--tier', 'quick'], cwd=w, capture_output=True, text=True, env=dict(os.environ, AIDEME_REPO=root, VERIF_SEED='1'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            m = re.search(r'(\d+) bounded only', r.stdout)
            res.append('%s rc=%d %.0fs b=%s' % (p, r.returncode, time.time() - t0, m and m.group(1)))
            if r.returncode == 1 and v:
                st = 'caught %s %s' % (p, 'obligation' if v[0].endswith('found') else 'input')
                break
            if r.returncode not in (0, 1):
                st = 'odd exit'
    a, b = old.split('\n'), src.split('\n')
    d = [i for i in range(min(len(a), len(b))) if a[i] != b[i]][:1] or [line - 1]
    return dict(file=f, line=line, what=what, status=st, runs=res, old=a[d[0]].strip(), new=b[d[0]].strip())


if __name__ == '__main__':
    args = sys.argv[1:]
    jobs, count, seed = 4, 100, 1
    while args and args[0].startswith('-'):
        if args[0] == '-j': jobs = int(args[1])
        if args[0] == '-n': count = int(args[1])
        if args[0] == '-s': seed = int(args[1])
        args = args[2:]
    out, only = args[0], args[1:]
    A, F = anchors(), functions()
    todo = []
    for f in sorted(A):
        if only and not any(o in f for o in only):
            continue
        src = open(os.path.join('/repo', f)).read()
        t = ast.parse(src)
        fns = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]
        for m in mutants(src):
            if m[2] is None or m[2] == src:
                continue
            try:
                ast.parse(m[2])
            except SyntaxError:
                continue
            enc = [n.name for n in fns if n.lineno <= m[0] <= n.end_lineno]
            pref = set().union(*[F.get(e, set()) for e in enc]) if enc else set()
            order = sorted(A[f], key=lambda p: (p not in pref, p))
            todo.append((f,) + m + (order,))
    random.Random(seed).shuffle(todo)
    print(len(todo), 'mutants; running', min(count, len(todo)), flush=True)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex, open(out, 'a') as o:
        for r in ex.map(trial, todo[:count]):
            o.write(json.dumps(r) + '\n')
            o.flush()
