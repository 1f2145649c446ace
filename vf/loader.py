"""Loads the code under test from its source, with every call, subscript load
and membership test routed through `interp`, and library modules replaced by
the stand-ins of `facades` and `symnp`."""
import ast
import builtins
import os
import sys
import types
from . import interp, facades, symnp

KEEP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__vf_call__', 'staticmethod', 'classmethod', 'property'}


class T(ast.NodeTransformer):
    def _fn(self, name, args, node):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in KEEP:
            return self.generic_visit(node)
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__vf_call__', ast.Load()), [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._fn('__vf_getitem__', [node.value, self._slice(node.slice)], node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.copy_location(ast.Call(ast.Name('__vf_slice__', ast.Load()),
                                              [s.lower or none, s.upper or none, s.step or none], []), s)
        if isinstance(s, ast.Tuple):
            return ast.copy_location(ast.Tuple([self._slice(e) for e in s.elts], ast.Load()), s)
        return s

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._fn('__vf_contains__', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                c = self._fn('__vf_not__', [c], node)
            return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._fn('__vf_mod__', [node.left, node.right], node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice) and not (isinstance(t.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in t.slice.elts)):
                return ast.copy_location(ast.Expr(self._fn('__vf_setitem__', [node.value, t.value, t.slice], node)), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._fn('__vf_dict__', [ast.copy_location(ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators), node)], node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant('')
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else '')
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return self._fn('__vf_fstring__', [ast.List(parts, ast.Load())], node)

    # -- small conditionals whose branches have no effects
    def _pure(self, e):
        return all(isinstance(n, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Tuple, ast.operator, ast.unaryop, ast.expr_context, ast.Compare, ast.cmpop))
                   and not (isinstance(n, ast.Compare) and (len(n.ops) > 1 or isinstance(n.ops[0], (ast.In, ast.NotIn))))
                   for n in ast.walk(e))

    def _lambda(self, e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

    def _body(self, stmts):
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.If) and len(s.body) == 1:
                b = s.body[0]
                o = s.orelse[0] if len(s.orelse) == 1 else (stmts[i + 1] if not s.orelse and i + 1 < len(stmts) else None)
                kind = None
                if isinstance(b, ast.Return) and isinstance(o, ast.Return) and b.value is not None and o.value is not None:
                    kind = 'r'
                elif s.orelse and isinstance(b, ast.Assign) and isinstance(o, ast.Assign) and len(b.targets) == len(o.targets) == 1 and \
                        isinstance(b.targets[0], ast.Name) and isinstance(o.targets[0], ast.Name) and b.targets[0].id == o.targets[0].id:
                    kind = 'a'
                if kind and self.infunc and self._pure(b.value) and self._pure(o.value):
                    yield from self._merged(s, b, o, kind)
                    i += 1
                    continue
            yield s
            i += 1

    def _merged(self, s, b, o, kind):
        import copy
        self.n += 1
        c, m = '__vf_c%d' % self.n, '__vf_m%d' % self.n
        st, ld = ast.Store(), ast.Load()
        out = [ast.Assign([ast.Name(c, st)], s.test),
               ast.Assign([ast.Name(m, st)], ast.Call(ast.Name('__vf_merge__', ld), [ast.Name(c, ld), self._lambda(copy.deepcopy(b.value)), self._lambda(copy.deepcopy(o.value))], []))]
        val = ast.Subscript(ast.Name(m, ld), ast.Constant(0), ld)
        test = ast.Compare(ast.Name(m, ld), [ast.IsNot()], [ast.Constant(None)])
        plain = ast.If(ast.Name(c, ld), s.body, s.orelse)
        if kind == 'r':
            out += [ast.If(test, [ast.Return(val)], []), plain]
        else:
            out += [ast.If(test, [ast.Assign([ast.Name(b.targets[0].id, st)], val)], [plain])]
        for x in out:
            ast.copy_location(x, s)
            for y in ast.walk(x):
                if not hasattr(y, 'lineno') and isinstance(y, (ast.stmt, ast.expr)):
                    ast.copy_location(y, s)
        return out

    infunc = 0
    n = 0

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, list(self._body(v)))
        return ast.NodeTransformer.generic_visit(self, node)

    def visit_FunctionDef(self, node):
        old, self.infunc = self.infunc, 1
        try:
            return self.generic_visit(node)
        finally:
            self.infunc = old

    def visit_ClassDef(self, node):
        old, self.infunc = self.infunc, 0
        try:
            return self.generic_visit(node)
        finally:
            self.infunc = old

    def visit_IfExp(self, node):
        if self._pure(node.body) and self._pure(node.orelse) and self.infunc and not any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(node.test)):
            self.generic_visit(node)
            return self._fn('__vf_ifexp__', [node.test, self._lambda(node.body), self._lambda(node.orelse)], node)
        return self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type.id = 'Exception'
        return node

    def visit_AnnAssign(self, node):
        # annotations are not evaluated symbolically
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


def _not(x):
    from .sym import bnot
    return bnot(x)


CODE = {}        # path -> (mtime, code)


def compile_file(path):
    st = os.stat(path)
    key = (st.st_mtime_ns, st.st_size)
    if path in CODE and CODE[path][0] == key:
        return CODE[path][1]
    with open(path, 'rb') as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    CODE[path] = (key, code)
    return code


REPO = os.environ.get('VF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

FACADE_MODULES = {
    'numpy': symnp.FACADE, 'struct': facades.struct, 'io': facades.io, 'gzip': facades.gzip,
    'zstandard': facades.zstandard, 'subprocess': facades.subprocess, 'functools': facades.functools_f,
    'warnings': facades.warnings, 're': facades.re, 'collections': facades.collections_f,
    'datetime': facades.datetime_f, 'json': facades.json_f,
}
REAL_OK = {'os', 'sys', 'collections', 'copy', 're', 'math', 'itertools', 'operator', 'typing', 'logging', 'weakref',
           'dataclasses', 'enum', 'json', 'datetime', 'argparse', 'difflib', 'abc', 'contextlib', 'pathlib', '__future__',
           'types', 'numbers', 'string', 'time', 'textwrap', 'collections.abc', 'array', 'inspect', 'bisect', 'heapq',
           'threading', 'tempfile', 'shutil', 'errno', 'importlib', 'importlib.metadata', 'importlib.resources', 'traceback', 'signal'}
OWN = {'eventio': lambda: os.path.join(REPO, 'src', 'eventio'), 'corsikaio': lambda: os.path.join(SITE, 'corsikaio')}

# functions entered while exploring: filled by the coverage hook
ENTERED = set()


class Loader:
    def __init__(self, cython=None):
        self.modules = {}
        self.cython = cython       # callable(module name, path, loader) -> module
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            '__import__': self._import, '__vf_call__': interp.call, '__vf_getitem__': interp.getitem,
            '__vf_setitem__': interp.setitem, '__vf_dict__': interp.mkdict,
            '__vf_contains__': interp.contains, '__vf_not__': _not, '__vf_mod__': interp.mod,
            '__vf_merge__': interp.merge_, '__vf_ifexp__': interp.ifexp,
            '__vf_fstring__': interp.fstring, '__vf_slice__': slice,
        })

    def path_of(self, name):
        top = name.split('.')[0]
        base = OWN[top]()
        p = os.path.join(os.path.dirname(base), *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        if os.path.exists(p + '.pyx'):
            return p + '.pyx', False
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        if name in ('eventio._version', 'eventio.version', 'eventio._dev_version'):
            m = types.ModuleType(name)
            m.__version__ = '0'
            m.version = '0'
            self.modules[name] = m
            self._bind(name, m)
            return m
        path, pkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        try:
            if name == 'corsikaio':
                pass
            elif path.endswith('.pyx'):
                self.cython(name, path, self, m)
            else:
                exec(compile_file(path), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        self._bind(name, m)
        return m

    def _bind(self, name, m):
        if '.' in name:
            parent, _, child = name.rpartition('.')
            setattr(self.modules[parent], child, m)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = base + ('.' + name if name else '')
        else:
            full = name
        top = full.split('.')[0]
        if top in OWN:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.modules[top]
        if full in FACADE_MODULES:
            return FACADE_MODULES[full]
        if full in REAL_OK or top in REAL_OK:
            return builtins.__import__(name, None, None, fromlist, 0)
        if top == 'matplotlib':
            import sys
            m = sys.modules.get(full)
            if getattr(m, 'vf_stand_in', False):
                return m if fromlist else sys.modules[top]
            raise ModuleNotFoundError('No module named matplotlib', name='matplotlib')
        from .sym import Unsupported
        raise Unsupported('import of ' + full)
