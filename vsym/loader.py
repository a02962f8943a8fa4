"""Import hook: instruments the current source of node.* and odict."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from . import sym

REPO_SRC = os.environ.get('VSYM_SRC', '/repo/src')
STR_METHODS = frozenset('''join format startswith endswith split rsplit strip
lstrip rstrip find rfind index replace partition rpartition count removeprefix
removesuffix match search fullmatch sub findall finditer'''.split())
CALLS = {'int': 'vint', 'str': 'vstr', 'len': 'vlen', 'type': 'vtype',
         'isinstance': 'visinstance', 'issubclass': 'vissubclass',
         'getattr': 'vgetattr', 'setattr': 'vsetattr', 'hasattr': 'vhasattr',
         'delattr': 'vdelattr', 'repr': 'vrepr', 'hash': 'vhash'}
NAMES = {'dict': 'SymDict', 'set': 'SymSet', 'frozenset': 'SymFrozenSet'}


def _vs(name, args, at):
    return ast.copy_location(ast.Call(
        func=ast.Attribute(value=ast.Name('__vs__', ast.Load()), attr=name,
                           ctx=ast.Load()),
        args=args, keywords=[]), at)


class Instrument(ast.NodeTransformer):
    def __init__(self, bound):
        self.bound = bound   # names the module rebinds itself

    def visit_Dict(self, n):
        self.generic_visit(n)
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                elts.append(ast.Tuple([ast.Constant(1), v, ast.Constant(None)], ast.Load()))
            else:
                elts.append(ast.Tuple([ast.Constant(0), k, v], ast.Load()))
        return _vs('mkdict', [ast.List(elts, ast.Load())], n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([ast.Constant(0), n.key, n.value],
                                       ast.Load()), n.generators)
        return _vs('mkdict', [g], n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return _vs('SymSet', [ast.List(n.elts, ast.Load())], n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return _vs('SymSet', [ast.GeneratorExp(n.elt, n.generators)], n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in NAMES and n.id not in self.bound:
            return ast.copy_location(ast.Attribute(
                ast.Name('__vs__', ast.Load()), NAMES[n.id], ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return self._fstr(n)

    def _fstr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ''
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(conv), spec], ast.Load()))
            else:
                parts.append(v)
        return _vs('fstr', [ast.List(parts, ast.Load())], n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return _vs('vmod', [n.left, n.right], n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = _vs('vin', [n.left, n.comparators[0]], n)
            if isinstance(n.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
            return c
        return n

    def visit_Call(self, n):
        f = n.func
        starred = any(isinstance(a, ast.Starred) for a in n.args)
        self.generic_visit(n)
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.bound:
            n.func = ast.copy_location(ast.Attribute(
                ast.Name('__vs__', ast.Load()), CALLS[f.id], ast.Load()), f)
            return n
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                and f.value.func.id == 'super'):
            kw = _vs('kwd', [], n)
            kw.keywords = n.keywords
            return _vs('str_call', [
                n.func.value, ast.Constant(f.attr),
                ast.Tuple(n.args, ast.Load()), kw], n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        for t in n.targets:
            if isinstance(t, ast.Attribute) and t.attr == '__dict__':
                n.value = _vs('realdict', [n.value], n.value)
        return n

    def visit_Import(self, n):
        out = []
        rest = []
        for a in n.names:
            if a.name in ('json', 'collections'):
                out.append(ast.copy_location(ast.Assign(
                    [ast.Name(a.asname or a.name, ast.Store())],
                    ast.Attribute(ast.Name('__vs__', ast.Load()), 'mod_' + a.name,
                                  ast.Load())), n))
            else:
                rest.append(a)
        if rest:
            n.names = rest
            out.append(n)
        return out

    def visit_ImportFrom(self, n):
        if n.module in ('json', 'collections') and not n.level:
            return [ast.copy_location(ast.Assign(
                [ast.Name(a.asname or a.name, ast.Store())],
                ast.Attribute(ast.Attribute(
                    ast.Name('__vs__', ast.Load()), 'mod_' + n.module, ast.Load()),
                    a.name, ast.Load())), n) for a in n.names]
        return n


def _bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
    # methods named like builtins do not rebind the global name
    top = set()
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            top.add(n.name)
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, (ast.FunctionDef, ast.ClassDef)) and m.name not in top:
                    out.discard(m.name)
    return out


class _Vs(types.ModuleType):
    pass


def make_vs():
    from . import stubs
    vs = _Vs('__vs__')
    for n in dir(sym):
        setattr(vs, n, getattr(sym, n))
    vs.vin = lambda x, c: sym.vcontains(c, x)
    vs.kwd = lambda **kw: kw
    vs.mod_json = stubs.json
    vs.mod_collections = stubs.collections
    return vs


VS = None
SOURCES = {}
CODE = {}     # compiled sources of this process


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global VS
        if VS is None:
            VS = make_vs()
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        SOURCES[self.path] = src
        code = CODE.get((self.path, src))
        if code is None:
            tree = ast.parse(src, self.path)
            tree = Instrument(_bound_names(tree)).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, self.path, 'exec', dont_inherit=True)
            CODE[(self.path, src)] = code
        module.__dict__['__vs__'] = VS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top == 'node':
            base = os.path.join(REPO_SRC, *name.split('.'))
        elif top == 'odict':
            base = os.path.join(ODICT_DIR, *name.split('.')[1:]) if '.' in name else ODICT_DIR
        else:
            return None
        if name == 'node.tests' or name.startswith('node.tests.'):
            if not TESTS:
                return None
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=Loader(base + '.py'))
        return None


ODICT_DIR = None
TESTS = False


def install():
    global ODICT_DIR
    ODICT_DIR = os.path.dirname(importlib.util.find_spec('odict').origin)
    sys.meta_path.insert(0, Finder())


FUNCS = set()
LINES = set()


def watch():
    """Record the functions of the code under test that are entered and the
    distinct source lines they execute."""
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'vsym')
    src = os.path.join(REPO_SRC, 'node') + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(src) and not code.co_name.startswith('<module'):
            FUNCS.add('%s:%s' % (os.path.relpath(fn, REPO_SRC), code.co_qualname))
        elif fn.startswith(ODICT_DIR) and not code.co_name.startswith('<module'):
            FUNCS.add('odict/%s:%s' % (os.path.basename(fn), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)
