"""Behaviour-preserving rewrites of the whole package, to test that the checks stay quiet.

refactor.py KIND DST : copies /repo to DST with every file of aideme rewritten.  Run a check on it with AIDEME_REPO=DST.
"""
import ast
import os
import shutil
import sys

SRC = '/repo'


class Flip(ast.NodeTransformer):
    """a < b  ->  b > a"""
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.SW:
            return ast.Compare(left=n.comparators[0], ops=[self.SW[type(n.ops[0])]()], comparators=[n.left])
        return n


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)


class RetTmp(ast.NodeTransformer):
    """return e  ->  result_ = e; return result_"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign(targets=[ast.Name(id='result_', ctx=ast.Store())], value=n.value), ast.Return(value=ast.Name(id='result_', ctx=ast.Load()))]


class Guard(ast.NodeTransformer):
    """if c: ...return/raise ; rest  ->  if c: ... else: rest"""

    def _body(self, b):
        out = []
        for k, s in enumerate(b):
            s = self.visit(s)
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[k + 1:]:
                s.orelse = self._body(b[k + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        n.body = self._body(n.body)
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(k, ast.parse('unused_ = None').body[0])
        return n


class Rename(ast.NodeTransformer):
    """local variables (not parameters) get another name"""

    def visit_FunctionDef(self, n):
        for s in ast.walk(n):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                return n
        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n]
        params = {a.arg for f in [n] + inner for a in f.args.args + f.args.kwonlyargs + [v for v in (f.args.vararg, f.args.kwarg) if v]}
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + '_v'
        return n


class Comp(ast.NodeTransformer):
    """x = [e for a in b if c]  ->  an explicit loop"""

    def _expand(self, name, c):
        body = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[c.elt], keywords=[]))]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                body = [ast.If(test=i, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        return [ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + body

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.targets) == 1 and not any(isinstance(x, ast.Lambda) for x in ast.walk(n.value)):
            return self._expand('list_', n.value) + [ast.Assign(targets=n.targets, value=ast.Name(id='list_', ctx=ast.Load()))]
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.ListComp):
            return self._expand('list_', n.value) + [ast.Return(value=ast.Name(id='list_', ctx=ast.Load()))]
        return n


class While(ast.NodeTransformer):
    """for i in range(n) -> while;  for x in xs -> for k_, x in enumerate(xs)"""

    def __init__(self):
        self.k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        self.k += 1
        it = n.iter
        jumps = any(isinstance(x, (ast.Continue, ast.Yield)) for x in ast.walk(n))
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(n.target, ast.Name) and not jumps and not n.orelse:
            v, e = 'next_%d' % self.k, 'end_%d' % self.k
            return ast.parse('%s = 0\n%s = %s' % (v, e, ast.unparse(it.args[0]))).body + [
                ast.While(test=ast.parse('%s < %s' % (v, e), mode='eval').body, body=ast.parse('%s = %s\n%s += 1' % (n.target.id, v, v)).body + n.body, orelse=[])]
        if isinstance(n.target, (ast.Name, ast.Tuple)) and not n.orelse:
            n.target = ast.Tuple(elts=[ast.Name(id='pos_%d' % self.k, ctx=ast.Store()), n.target], ctx=ast.Store())
            n.iter = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[it], keywords=[])
        return n


class Extract(ast.NodeTransformer):
    """every method hands its arguments to a private helper that has the body"""

    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__init') and f.args.args and f.args.args[0].arg == 'self' \
                    and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not f.args.posonlyargs \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f)):
                h = '_%s_%d_body' % (f.name.strip('_'), len(f.name))
                g = ast.FunctionDef(name='__' + n.name.lower() + h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a.arg) for a in f.args.args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                    body=f.body, decorator_list=[], type_params=[])
                f.body = [ast.Return(value=ast.Call(func=ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=g.name, ctx=ast.Load()),
                                                    args=[ast.Name(id=a.arg, ctx=ast.Load()) for a in f.args.args[1:]], keywords=[]))]
                out += [f, g]
            else:
                out.append(f)
        n.body = out
        return n


class Swap(ast.NodeTransformer):
    """neighbouring assignments of attributes to plain names or constants change places"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)

        def plain(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == 'self' \
                and s.targets[0].attr.startswith('_') and isinstance(s.value, (ast.Name, ast.Constant))
        k = 0
        while k + 1 < len(n.body):
            if plain(n.body[k]) and plain(n.body[k + 1]) and n.body[k].targets[0].attr != n.body[k + 1].targets[0].attr:
                n.body[k], n.body[k + 1] = n.body[k + 1], n.body[k]
                k += 1
            k += 1
        return n


class Aug(ast.NodeTransformer):
    """local = expression with a call  ->  a temporary for the first argument"""

    def __init__(self):
        self.k = 0

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.args and isinstance(v.args[0], (ast.BinOp, ast.Call, ast.Subscript)) \
                and not any(isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.ListComp)) for x in ast.walk(v)) and isinstance(v.func.value, ast.Name):
            self.k += 1
            t = 'tmp_%d' % self.k
            a = v.args[0]
            v.args[0] = ast.Name(id=t, ctx=ast.Load())
            return [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=a), n]
        return n


class Commute(ast.NodeTransformer):
    """a + b -> b + a, a * b -> b * a where neither side has a side effect or is a string or list"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        bad = lambda e: any(isinstance(x, (ast.List, ast.ListComp, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e))
        if isinstance(n.op, ast.Mult) and not bad(n.left) and not bad(n.right):
            n.left, n.right = n.right, n.left
        return n


KINDS = {'flip': Flip, 'invert': Invert, 'rettmp': RetTmp, 'guard': Guard, 'noop': Noop, 'rename': Rename, 'comp': Comp, 'while': While, 'extract': Extract, 'swap': Swap, 'temp': Aug,
         'commute': Commute}


def main(kind, dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.so', 'build'))
    for root, _, files in os.walk(os.path.join(dst, 'aideme')):
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(root, f)
                t = ast.parse(open(p).read())
                fut = [s for s in t.body if isinstance(s, ast.ImportFrom) and s.module == '__future__']
                t = KINDS[kind]().visit(t)
                ast.fix_missing_locations(t)
                open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main(sys.argv[1], os.path.abspath(sys.argv[2]))
