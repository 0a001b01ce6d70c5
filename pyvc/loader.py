"""Loads the modules of /repo/aideme under the verifier: the source files are parsed on every run and rewritten
mechanically - `for`/`while` statements, comprehensions, empty list/set displays - and nothing else."""
import ast
import os
import sys
import types

from .loops import PV


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.counts = {}
        self.infunc = False
        self.locals = set()          # names assigned in the current function

    # -- scopes
    def _scope(self, node):
        self.stack.append(node.name)
        f0 = self.infunc
        self.infunc = f0 or not isinstance(node, ast.ClassDef)
        l0 = self.locals
        if not isinstance(node, ast.ClassDef):
            self.locals = set(self._stored(node.body))
        self.generic_visit(node)
        self.infunc, self.locals = f0, l0
        self.stack.pop()
        return node

    visit_FunctionDef = _scope
    visit_ClassDef = _scope
    visit_AsyncFunctionDef = _scope

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _key(self, kind):
        q = '.'.join(self.stack)
        k = (q, kind)
        self.counts[k] = self.counts.get(k, 0) + 1
        return '%s:%s#%d' % (q, kind, self.counts[k])

    @staticmethod
    def _stored(nodes, sub=()):
        names = []

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Store) and n.id not in names:
                    names.append(n.id)

            def visit_Subscript(self, n):
                if sub and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in sub and n.value.id not in names:
                    names.append(n.value.id)
                self.generic_visit(n)

            def visit_Call(self, n):
                f = n.func
                if sub and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in sub and f.value.id not in names:
                    names.append(f.value.id)
                self.generic_visit(n)

            def visit_FunctionDef(self, n):
                if n.name not in names:
                    names.append(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        for n in nodes:
            V().visit(n)
        return names

    def _rebind(self, var, names):
        out = []
        for n in names:
            out.append(ast.parse('if %s.has(%r):\n    %s = %s.val(%r)' % (var, n, n, var, n)).body[0])
        return out

    def visit_For(self, node):
        key = self._key('for')
        stored = self._stored(node.body, self.locals)
        targets = self._stored([node.target])
        node = self.generic_visit(node)
        var = 'pv_L%d_' % len(self.counts) + str(node.lineno)
        pre = ast.parse('%s = pv_rt.loop(%r, None, locals())' % (var, key)).body[0]
        pre.value.args[1] = node.iter
        node.iter = ast.Name(var, ast.Load())
        names = [n for n in stored if n not in targets]
        node.body = self._rebind(var, names) + node.body
        node.orelse = self._rebind(var, names) + node.orelse
        if not node.orelse:
            node.orelse = []
        TARGETS.setdefault(key, set()).update(targets)
        return [pre, node]

    def visit_While(self, node):
        key = self._key('while')
        stored = self._stored(node.body, self.locals)
        node = self.generic_visit(node)
        var = 'pv_W%d_' % len(self.counts) + str(node.lineno)
        pre = ast.parse('%s = pv_rt.wloop(%r, locals())' % (var, key)).body[0]
        head = ast.parse('%s.head(locals())' % var).body
        test = ast.If(ast.UnaryOp(ast.Not(), node.test), list(node.orelse) + [ast.Break()], [])
        node.test = ast.Constant(True)
        node.orelse = []
        node.body = head + self._rebind(var, stored) + [test] + node.body
        return [pre, node]

    # -- comprehensions
    def _comp(self, node, which, elt):
        if len(node.generators) != 1 or node.generators[0].is_async:
            return self.generic_visit(node)
        g = node.generators[0]
        it = self.visit(g.iter)
        conds = [self.visit(c) for c in g.ifs]
        elt = self.visit(elt)

        def lam(body):
            inner = ast.Subscript(
                ast.ListComp(body, [ast.comprehension(g.target, ast.Tuple([ast.Name('pv_e', ast.Load())], ast.Load()),
                                                      [], 0)]), ast.Constant(0), ast.Load())
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('pv_e')], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), inner)
        return ast.Call(ast.Attribute(ast.Name('pv_rt', ast.Load()), which, ast.Load()),
                        [it, lam(elt), ast.List([lam(c) for c in conds], ast.Load())], [])

    def visit_ListComp(self, node):
        return self._comp(node, 'listcomp', node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, 'setcomp', node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'genexp', node.elt)

    def visit_DictComp(self, node):
        return self._comp(node, 'dictcomp', ast.Tuple([node.key, node.value], ast.Load()))

    # -- empty displays
    def visit_List(self, node):
        self.generic_visit(node)
        if self.stack and self.infunc and not node.elts and isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Attribute(ast.Name('pv_rt', ast.Load()), 'newlist', ast.Load()), [], [])
        return node


TARGETS = {}


class Loader:
    """import hook for `aideme`: rewritten sources, stubs for the dependencies"""

    def __init__(self, engine, repo):
        self.engine, self.repo = engine, repo
        self.pv = PV(engine)
        self.sources = {}

    # importlib finder API
    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name != 'aideme' and not name.startswith('aideme.'):
            return None
        if name in self.engine.module_overrides:
            return importlib.machinery.ModuleSpec(name, self)
        rel = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(rel):
            f = os.path.join(rel, '__init__.py')
            s = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
            s.submodule_search_locations = [rel]
            return s
        if os.path.isfile(rel + '.py'):
            return importlib.machinery.ModuleSpec(name, self, origin=rel + '.py')
        if os.path.isfile(rel + '.pyx'):
            return importlib.machinery.ModuleSpec(name, self, origin=rel + '.pyx')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        name = mod.__spec__.name
        if name in self.engine.module_overrides:
            mod.__dict__.update(self.engine.module_overrides[name])
            return
        f = mod.__spec__.origin
        if not os.path.isfile(f):
            return
        with open(f, encoding='utf-8') as h:
            src = h.read()
        if f.endswith('.pyx'):
            from .cython_strip import strip
            src = strip(src)
        self.sources[name] = f
        tree = ast.parse(src, f)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        g = mod.__dict__
        g['pv_rt'] = self.pv
        g['__file__'] = f
        g.update(self.engine.builtins)
        exec(compile(tree, f, 'exec'), g)
