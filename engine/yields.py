"""Scheduling points: before every statement and in every comprehension element
of the instrumented modules, the same for symbolic runs and for replays."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys


class Yields(ast.NodeTransformer):
    def call(self):
        return ast.Call(ast.Name("__rt_yield__", ast.Load()), [], [])

    def body(self, stmts):
        out = []
        for s in stmts:
            s = self.visit(s)
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Import, ast.ImportFrom, ast.Nonlocal, ast.Global, ast.FunctionDef)):
                out.append(ast.copy_location(ast.Expr(self.call()), s))
            out.append(s)
        return out

    def visit_FunctionDef(self, node):
        node.body = self.body(node.body)
        return node

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list) and isinstance(node, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
                setattr(node, f, self.body(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def comp(self, node):
        self.generic_visit(node)
        if isinstance(node, ast.DictComp):
            node.key = self.point(node.key)
        else:
            node.elt = self.point(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

    def point(self, e):
        return ast.copy_location(ast.Subscript(ast.Tuple([self.call(), e], ast.Load()), ast.Constant(1), ast.Load()), e)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        p = self.get_filename(name)
        tree = Yields().visit(ast.parse(self.get_data(p), p))
        ast.fix_missing_locations(tree)
        return compile(tree, p, "exec")


class Finder(importlib.abc.MetaPathFinder):
    """imports the named modules with scheduling points"""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name not in self.names:
            return None
        s = importlib.machinery.PathFinder.find_spec(name, path)
        if s is None or s.origin is None:
            return None
        return importlib.util.spec_from_file_location(name, s.origin, loader=Loader(name, s.origin), submodule_search_locations=s.submodule_search_locations)
