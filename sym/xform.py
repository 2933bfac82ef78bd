"""Source-to-source transformation of the code under test.

The modules are read from the working tree on every run; calls, membership
tests, subscripts, % and f-strings are routed through sym.hooks, everything
else runs natively on the symbolic values.
"""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import hooks

H = '_S_hooks_'
NOHOOK = {'super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval',
          '__import__'}


def _h(name):
    return ast.Attribute(ast.Name(H, ast.Load()), name, ast.Load())


BITS = {ast.BitAnd: 'and_', ast.BitOr: 'or_', ast.BitXor: 'xor'}


class X(ast.NodeTransformer):
    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in NOHOOK:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not (
                f.attr.startswith('__') and not f.attr.endswith('__')):
            return ast.Call(
                _h('callm'), [f.value, ast.Constant(f.attr)] + n.args,
                n.keywords)
        return ast.Call(_h('call'), [f] + n.args, n.keywords)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(_h('contains'), [n.comparators[0], n.left], [])
            # evaluation order: left operand first
            if not _simple(n.left) and not _simple(n.comparators[0]):
                c = ast.Call(_h('in_'), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(
                n.slice, (ast.Slice, ast.Constant, ast.UnaryOp)):
            return ast.Call(_h('getitem'), [n.value, n.slice], [])
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) \
           and not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.Expr(ast.Call(
                _h('setitem_v'), [n.value, t.value, t.slice], []))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        t = n.target
        if isinstance(n.op, ast.Mod):
            ld = ast.parse(ast.unparse(t), mode='eval').body
            if isinstance(t, ast.Name):
                return ast.Assign(
                    [t], ast.Call(_h('mod'), [ld, n.value], []))
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) \
           and not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.Expr(ast.Call(
                _h('delitem'), [t.value, t.slice], []))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(_h('mod'), [n.left, n.right], [])
        op = BITS.get(type(n.op))
        if op is not None and not (isinstance(n.left, ast.Constant) or
                                   isinstance(n.right, ast.Constant)):
            return ast.Call(_h('bitop'), [ast.Constant(op), n.left, n.right],
                            [])
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(_h('tick'), [], [])))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(_h('tick'), [], [])))
        n.iter = _iter(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = _iter(n.iter)
        return n

    # displays whose keys may be symbolic
    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        return ast.Call(_h('mkdict'), [
            ast.Tuple([ast.Constant(None), v, ast.Constant(1)]
                      if k is None else [k, v], ast.Load())
            for k, v in zip(n.keys, n.values)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(_h('mkdict'), [ast.Starred(ast.ListComp(
            ast.Tuple([n.key, n.value], ast.Load()), n.generators),
            ast.Load())], [])

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts):
            return n
        return ast.Call(_h('mkset'), [ast.List(n.elts, ast.Load())], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(_h('mkset'), [ast.ListComp(n.elt, n.generators)], [])

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                e = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) \
                    if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(
                    [e, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.Call(_h('fmt'), [ast.List(parts, ast.Load())], [])

    # patterns and decorators stay native
    def visit_MatchValue(self, n):
        return n


def _iter(n):
    if isinstance(n, (ast.Constant, ast.List, ast.Tuple)):
        return n
    return ast.Call(_h('it'), [n], [])


def _simple(n):
    return isinstance(n, (ast.Name, ast.Constant, ast.Tuple, ast.Attribute,
                          ast.List, ast.Set))


class HS(hooks.S):
    @staticmethod
    def in_(x, box):
        return hooks.contains(box, x)

    @staticmethod
    def setitem_v(v, o, k):
        hooks.setitem(o, k, v)


def transform(src, filename):
    t = ast.parse(src, filename)
    t = X().visit(t)
    ast.fix_missing_locations(t)
    return compile(t, filename, 'exec', dont_inherit=True)


def read(path):
    import tokenize
    with tokenize.open(path) as f:
        return f.read()


SOURCES = {}        # path -> sha256 of what was encoded
FUNCS = {}          # path -> function names


def load_into(mod, path):
    src = read(path)
    SOURCES[path] = hashlib.sha256(src.encode()).hexdigest()
    FUNCS[path] = [n.name for n in ast.walk(ast.parse(src))
                   if isinstance(n, ast.FunctionDef)]
    code = transform(src, path)
    mod.__dict__[H] = HS
    mod.__dict__['__symx__'] = True
    exec(code, mod.__dict__)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, pkg):
        self.root = root
        self.pkg = pkg

    def find_spec(self, name, path=None, target=None):
        if name != self.pkg and not name.startswith(self.pkg + '.'):
            return None
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, '__init__.py')):
            return importlib.util.spec_from_file_location(
                name, os.path.join(base, '__init__.py'), loader=self,
                submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        load_into(mod, mod.__spec__.origin)


def _purge(pkg):
    out = {}
    for k in list(sys.modules):
        if k == pkg or k.startswith(pkg + '.'):
            out[k] = sys.modules.pop(k)
    return out


def native_package(root, pkg):
    """Import pkg from root as it is; returns its modules."""
    _purge(pkg)
    sys.path.insert(0, root)
    try:
        importlib.import_module(pkg)
        import pkgutil
        p = sys.modules[pkg]
        for m in pkgutil.walk_packages(p.__path__, pkg + '.'):
            if '.tests' in m.name:
                continue
            importlib.import_module(m.name)
        f = os.path.realpath(p.__file__)
        if not f.startswith(os.path.realpath(root) + os.sep):
            raise RuntimeError('%s loaded from %s' % (pkg, f))
    finally:
        sys.path.remove(root)
    return _purge(pkg)


def symbolic_package(root, pkg):
    _purge(pkg)
    f = Finder(root, pkg)
    sys.meta_path.insert(0, f)
    try:
        importlib.import_module(pkg)
        import pkgutil
        p = sys.modules[pkg]
        for m in pkgutil.walk_packages(p.__path__, pkg + '.'):
            if '.tests' in m.name:
                continue
            importlib.import_module(m.name)
    finally:
        sys.meta_path.remove(f)
    mods = dict((k, v) for k, v in sys.modules.items()
                if k == pkg or k.startswith(pkg + '.'))
    return mods


def load_file(path, name, symbolic, **glob):
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update(glob)
    if symbolic:
        src = read(path)
        m.__dict__[H] = HS
        m.__dict__['__symx__'] = True
        exec(transform(src, path), m.__dict__)
    else:
        exec(compile(read(path), path, 'exec', dont_inherit=True),
             m.__dict__)
    return m


_std = {}


def stdlib(name):
    m = _std.get(name)
    if m is None:
        real = importlib.import_module(name)
        m = types.ModuleType('_symx_' + name.replace('.', '_'))
        m.__package__ = real.__package__
        m.__file__ = real.__file__
        _std[name] = m
        m.__dict__[H] = HS
        m.__dict__['__symx__'] = True
        exec(transform(read(real.__file__), real.__file__), m.__dict__)
    return m


def foreign(f):
    try:
        if '<locals>' in f.__qualname__:
            return None
        m = stdlib(f.__module__)
        o = m
        for p in f.__qualname__.split('.'):
            o = getattr(o, p)
        return o
    except Exception:
        return None
