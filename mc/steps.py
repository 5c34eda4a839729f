"""Lets the scheduler hand over between the statements of a package, too."""

import ast
import importlib.abc
import importlib.machinery
import sys

NAME = '__mc_statement__'


class _Insert(ast.NodeTransformer):
    """A call before each statement of functions that uses an attribute."""

    inside = 0

    def function(self, node):
        self.inside += 1
        self.generic_visit(node)
        self.inside -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = function

    def generic_visit(self, node):
        super().generic_visit(node)
        if not self.inside:
            return node
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(node, field, None)
            if not isinstance(body, list):
                continue
            new = []
            for s in body:
                heads = [s]
                if hasattr(s, 'body'):
                    # what is done before the statements in it
                    heads = [getattr(s, f) for f in ('test', 'iter')
                             if hasattr(s, f)]
                    heads += [i.context_expr for i in getattr(s, 'items', ())]
                if any(isinstance(n, ast.Attribute)
                       for h in heads for n in ast.walk(h)):
                    new.append(ast.copy_location(ast.Expr(ast.Call(
                        ast.Name(NAME, ast.Load()), [], [])), s))
                new.append(s)
            setattr(node, field, new)
        return node


class _Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = _Insert().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, 'exec',
                       dont_inherit=True)

    def exec_module(self, module):
        from mc import sched
        setattr(module, NAME, sched.statement)
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):

    def __init__(self, package):
        self.package = package

    def find_spec(self, name, path, target=None):
        if name != self.package and not name.startswith(self.package + '.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and isinstance(spec.loader,
                               importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def insert(package):
    for name in sys.modules:
        if name == package or name.startswith(package + '.'):
            raise AssertionError('%s was imported before' % name)
    sys.meta_path.insert(0, _Finder(package))
