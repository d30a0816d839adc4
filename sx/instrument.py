"""Loads modules with their source instrumented for symbolic execution.

The source is read from disk on every run.  Calls, `in`, `%`, f-strings,
displays and broad exception handlers are redirected to sx.models; nothing
else changes.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import sysconfig

from . import models
from .core import Control

SKIP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '_sx_call',
        '__import__', 'print', '__build_class__'}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Transform(ast.NodeTransformer):

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP:
            return node
        if isinstance(f, ast.Attribute):
            private = f.attr.startswith('__') and not f.attr.endswith('__')
            if private or isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                new = ast.Call(func=name('_sx_call'), args=[f] + node.args, keywords=node.keywords)
            else:
                new = ast.Call(func=name('_sx_mcall'),
                               args=[f.value, ast.Constant(f.attr)] + node.args,
                               keywords=node.keywords)
        else:
            new = ast.Call(func=name('_sx_call'), args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            new = ast.Call(func=name('_sx_in'), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                new = ast.UnaryOp(op=ast.Not(), operand=new)
            return ast.copy_location(new, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=name('_sx_mod'), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(None if v.conversion < 0 else chr(v.conversion))
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=name('_sx_fstr'), args=parts, keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            elts = [v] if k is None else [k, v]
            pairs.append(ast.Tuple(elts=elts, ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=name('_sx_dict'), args=pairs, keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=name('_sx_set'), args=[ast.List(elts=node.elts, ctx=ast.Load())],
                                          keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                               generators=node.generators)
        return ast.copy_location(ast.Call(func=name('_sx_sdict'), args=[gen], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=name('_sx_set'), args=[gen], keywords=[]), node)

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        node.bases = [b if isinstance(b, ast.Starred) else ast.copy_location(
            ast.Call(func=name('_sx_base'), args=[b], keywords=[]), b) for b in node.bases]
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or any(
            isinstance(t, ast.Name) and t.id == 'BaseException'
            for t in (node.type.elts if isinstance(node.type, ast.Tuple) else [node.type]))
        if broad:
            node.body.insert(0, ast.copy_location(ast.Expr(ast.Call(
                func=name('_sx_exc'), args=[], keywords=[])), node))
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=ast.Call(func=name('_sx_mod'), args=[name(node.target.id), node.value], keywords=[])), node)
        return node

    def visit_FunctionDef(self, node):
        # decorators stay ordinary calls where they are names
        node = self.generic_visit(node)
        # annotations are irrelevant
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        return node

    def visit_AnnAssign(self, node):
        return self.generic_visit(node)

    def visit_Match(self, node):
        # patterns must stay constants; only bodies and guards change
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


def _exc():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


HELPERS = {
    '_sx_call': models.call, '_sx_mcall': models.mcall, '_sx_in': models.contains,
    '_sx_mod': models.mod, '_sx_fstr': models.fstring, '_sx_dict': models.mkdict,
    '_sx_sdict': models.SDict, '_sx_set': models.SSet, '_sx_exc': _exc,
    '_sx_base': models.base,
}

ENCODED = {}    # module -> set of functions entered (filled by the runner)


def transform(source, path):
    tree = ast.parse(source, path)
    tree = Transform().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


STDLIB = sysconfig.get_paths()['stdlib']

# Standard library modules executed symbolically (their own source).
STD_MODULES = {
    'email', 'shelve', 'fnmatch', 'ipaddress', 'base64', 'quopri', 'uu', 'textwrap',
    'posixpath', 'genericpath', 'urllib.parse', 'copy', 'calendar', 'mimetypes', 'heapq',
    '_strptime', 'statistics', 'html', 'stat', 'glob', 'pathlib',
}


class Loader(importlib.abc.Loader):

    def __init__(self, fullname, path, is_pkg):
        self.fullname = fullname
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            source = f.read()
        module.__dict__.update(HELPERS)
        code = transform(source, self.path)
        exec(code, module.__dict__)
        post = POST.get(self.fullname)
        if post:
            post(module)


POST = {}


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, roots):
        self.roots = roots      # {top-level name: directory}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top in self.roots:
            base = self.roots[top]
        elif fullname in STD_MODULES or top in ('email',) or fullname.rpartition('.')[0] in ('html',):
            base = STDLIB
        else:
            return None
        rel = os.path.join(base, *fullname.split('.'))
        for p, pkg in ((os.path.join(rel, '__init__.py'), True), (rel + '.py', False)):
            if os.path.isfile(p):
                loader = Loader(fullname, p, pkg)
                spec = importlib.machinery.ModuleSpec(fullname, loader, origin=p, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [rel]
                spec.has_location = True
                return spec
        return None


def install(repo, props):
    """Makes sbclassifier (from `repo`), the harnesses (from `props`) and the
    listed standard modules load instrumented."""
    roots = {'sbclassifier': repo, 'props': os.path.dirname(props)}
    for m in list(sys.modules):
        top = m.split('.')[0]
        if top in roots or m in STD_MODULES or top == 'email':
            if m in ('posixpath', 'genericpath', 'stat', 'copy', 'heapq', 'fnmatch', 'textwrap', 'calendar',
                     'urllib.parse', 'base64', 'glob', 'mimetypes', 'statistics', 'pathlib'):
                continue    # re-loaded on demand by `fresh`
            del sys.modules[m]
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    import importlib
    for m in ('fnmatch', 'base64', 'urllib.parse', 'ipaddress', 'copy', 'glob', 'heapq', 'textwrap', 'pathlib'):
        fresh(m, f)
    # os.path functions: instrumented copies, used from instrumented code
    pp = load_private('posixpath', f)
    import posixpath
    for n in dir(posixpath):
        g = getattr(posixpath, n)
        h = getattr(pp, n, None)
        if callable(g) and callable(h) and type(g).__name__ == 'function' and n not in (
                'realpath', 'ismount', 'lexists', 'relpath', 'expanduser', 'expandvars', 'commonpath', 'commonprefix'):
            def m(*a, _g=g, _h=h, **k):
                return _h(*a, **k) if models.anysym(a, k) else _g(*a, **k)
            models.MODELS[id(g)] = (g, m)
    return f


def fresh(m, finder):
    old = sys.modules.pop(m, None)
    import importlib
    new = importlib.import_module(m)
    if old is not None and '.' in m:
        setattr(sys.modules[m.rpartition('.')[0]], m.rpartition('.')[2], new)
    return new


def load_private(m, finder):
    spec = finder.find_spec(m)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod
