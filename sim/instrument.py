"""Loads modules with scheduling points inserted (import hook, AST rewriting).

Inside every function body of an instrumented module:
  * a point before every statement,
  * a point after every call (a wrapper passes the value through) and in every
    iteration of a comprehension,
  * `x.a += v` and `x[k] += v` are split into load, point, operate, point,
    store, as a byte-code interpreter would execute them.

The code otherwise runs unchanged, under its own file name and line numbers.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from sim import engine

PT = '__sim_pt__'
PTV = '__sim_ptv__'
NO_WRAP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', PT, PTV}


class Rewriter(ast.NodeTransformer):

    def __init__(self):
        self.depth = 0
        self.tmp = 0

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self._body(node.body)
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def _point(self, at):
        call = ast.Call(func=ast.Name(id=PT, ctx=ast.Load()), args=[], keywords=[])
        return ast.copy_location(ast.Expr(value=call), at)

    def _body(self, stmts):
        out = []
        for i, st in enumerate(stmts):
            doc = (i == 0 and isinstance(st, ast.Expr) and
                   isinstance(st.value, ast.Constant) and
                   isinstance(st.value.value, str))
            new = self.visit(st)
            if new is None:
                continue
            news = new if isinstance(new, list) else [new]
            if not doc and not isinstance(st, (ast.Global, ast.Nonlocal)):
                out.append(self._point(st))
            out.extend(news)
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt) and self.depth:
                    setattr(node, field, self._body(old))
                else:
                    new = []
                    for v in old:
                        if isinstance(v, ast.AST):
                            v = self.visit(v)
                            if v is None:
                                continue
                            if isinstance(v, list):
                                new.extend(v)
                                continue
                        new.append(v)
                    old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id=PTV, ctx=ast.Load()), args=[node],
                     keywords=[]), node)

    def _comprehension(self, node):
        # a switch is possible at every iteration
        self.generic_visit(node)
        if self.depth:
            node.elt = ast.copy_location(
                ast.Call(func=ast.Name(id=PTV, ctx=ast.Load()), args=[node.elt], keywords=[]), node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = _comprehension

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.target, (ast.Attribute, ast.Subscript)):
            return node
        self.tmp += 1
        obj, val, idx = ('__sim_o%d' % self.tmp, '__sim_v%d' % self.tmp, '__sim_i%d' % self.tmp)
        N = lambda i, c: ast.Name(id=i, ctx=c())
        t = node.target
        out = [ast.Assign(targets=[N(obj, ast.Store)], value=t.value)]
        if isinstance(t, ast.Attribute):
            load = ast.Attribute(value=N(obj, ast.Load), attr=t.attr, ctx=ast.Load())
            store = ast.Attribute(value=N(obj, ast.Load), attr=t.attr, ctx=ast.Store())
        else:
            out.append(ast.Assign(targets=[N(idx, ast.Store)], value=t.slice))
            load = ast.Subscript(value=N(obj, ast.Load), slice=N(idx, ast.Load), ctx=ast.Load())
            store = ast.Subscript(value=N(obj, ast.Load), slice=N(idx, ast.Load), ctx=ast.Store())
        out.append(ast.Assign(targets=[N(val, ast.Store)], value=load))
        out.append(self._point(node))
        out.append(ast.AugAssign(target=N(val, ast.Store), op=node.op, value=node.value))
        out.append(self._point(node))
        out.append(ast.Assign(targets=[store], value=N(val, ast.Load)))
        for st in out:
            ast.copy_location(st, node)
            for sub in ast.walk(st):
                if not hasattr(sub, 'lineno'):
                    ast.copy_location(sub, node)
        return out


def compile_instrumented(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


def inject(globals_):
    globals_[PT] = engine.pt
    globals_[PTV] = engine.ptv


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile_instrumented(self.get_data(path), path)

    def exec_module(self, module):
        inject(module.__dict__)
        super(Loader, self).exec_module(module)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, root, package):
        self.root, self.package = root, package

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + '.'):
            return None
        base = os.path.join(self.root, *name.split('.'))
        for fn, pkg in [(os.path.join(base, '__init__.py'), True), (base + '.py', False)]:
            if os.path.isfile(fn):
                return importlib.util.spec_from_file_location(
                    name, fn, loader=Loader(name, fn),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install(root, package='profiling'):
    sys.meta_path.insert(0, Finder(root, package))
