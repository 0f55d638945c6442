"""Import hook which runs the Python 2.7 sources of /repo/src under Python 3.

The repository is Python 2.7 code and only Python 3.12 exists in the sandbox.
The hook reads the *current* text of every module each time a process starts,
rewrites Python-2-only syntax with lib2to3, then rewrites the resulting AST so
that the constructs whose meaning changed between the languages keep their
Python 2 meaning (integer division, list-returning dict methods and builtins,
total ordering of mixed types, implicit relative imports, ...).  Nothing is
written to disk.
"""

import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import operator
import os
import sys
import types
import warnings

warnings.simplefilter('ignore')

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# --------------------------------------------------------------------------
# Syntax.

_RT = {}

_FIXES = ('print', 'except', 'raise', 'exec', 'ne', 'repr', 'numliterals',
    'tuple_params')


def _refactor(source, name, print_statement):
    from lib2to3 import refactor
    key = bool(print_statement)
    if key not in _RT:
        fixes = [f for f in _FIXES if print_statement or f != 'print']
        _RT[key] = refactor.RefactoringTool(
            ['lib2to3.fixes.fix_' + f for f in fixes],
            {'print_function': not print_statement})
    return str(_RT[key].refactor_string(source, name))


def to_py3_ast(source, filename):
    """Return a Python 3 AST for Python 2 source text."""
    source = source.rstrip() + '\n'
    errors = []
    attempts = (
        lambda: _refactor(source, filename, True),
        lambda: _refactor(source, filename, False),
        lambda: source,
    )
    for attempt in attempts:
        try:
            return ast.parse(attempt(), filename)
        except Exception as e:
            errors.append(e)
    raise SyntaxError('%s: %s' % (filename, errors))


# --------------------------------------------------------------------------
# Run time support.

def _rank(x):
    if x is None:
        return (0, '')
    if isinstance(x, (int, float, complex)) or (
            'numpy' in sys.modules
            and isinstance(x, sys.modules['numpy'].number)):
        return (1, '')
    if isinstance(x, str):
        return (2, 'str')
    return (2, type(x).__name__)


def py2_cmp(a, b):
    try:
        if a == b:
            return 0
        if a < b:
            return -1
        if a > b:
            return 1
        return 0
    except TypeError:
        pass
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        for x, y in zip(a, b):
            c = py2_cmp(x, y)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return -1 if len(a) < len(b) else 1
        return py2_cmp(py2_sorted(a.items()), py2_sorted(b.items()))
    ra, rb = _rank(a), _rank(b)
    if ra == rb:
        ra, rb = id(a), id(b)
    return (ra > rb) - (ra < rb)


def py2_lt(a, b):
    try:
        return a < b
    except TypeError:
        return py2_cmp(a, b) < 0


def py2_le(a, b):
    try:
        return a <= b
    except TypeError:
        return py2_cmp(a, b) <= 0


def py2_gt(a, b):
    try:
        return a > b
    except TypeError:
        return py2_cmp(a, b) > 0


def py2_ge(a, b):
    try:
        return a >= b
    except TypeError:
        return py2_cmp(a, b) >= 0


_OPS = {
    'Lt': py2_lt, 'LtE': py2_le, 'Gt': py2_gt, 'GtE': py2_ge,
    'Eq': operator.eq, 'NotEq': operator.ne,
    'Is': operator.is_, 'IsNot': operator.is_not,
    'In': lambda a, b: a in b, 'NotIn': lambda a, b: a not in b,
}


def py2_chain(ops, *thunks):
    left = thunks[0]()
    result = True
    for op, thunk in zip(ops, thunks[1:]):
        right = thunk()
        result = _OPS[op](left, right)
        if not result:
            return result
        left = right
    return result


def _integral(x):
    if isinstance(x, int):
        return True
    np = sys.modules.get('numpy')
    if np is None:
        return False
    if isinstance(x, (np.integer, np.bool_)):
        return True
    return isinstance(x, np.ndarray) and x.dtype.kind in 'iub'


def py2_div(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    if _integral(a) and _integral(b):
        return a // b
    return a / b


def py2_idiv(a, b):
    if _integral(a) and _integral(b):
        return operator.ifloordiv(a, b)
    return operator.itruediv(a, b)


def _is_mapping(d):
    return isinstance(d, dict) or (
        hasattr(d, '__getitem__') and type(d).__module__ == 'collections')


def py2_keys(d):
    return list(d.keys()) if _is_mapping(d) else d.keys()


def py2_values(d):
    return list(d.values()) if _is_mapping(d) else d.values()


def py2_items(d):
    return list(d.items()) if _is_mapping(d) else d.items()


_RENAMED = {
    'iteritems': 'items', 'iterkeys': 'keys', 'itervalues': 'values',
    'viewitems': 'items', 'viewkeys': 'keys', 'viewvalues': 'values',
    'has_key': '__contains__',
    'func_code': '__code__', 'func_name': '__name__',
    'func_defaults': '__defaults__', 'func_globals': '__globals__',
    'func_dict': '__dict__', 'func_doc': '__doc__',
    'im_func': '__func__', 'im_self': '__self__', 'im_class': '__class__',
}
_ITERS = ('iteritems', 'iterkeys', 'itervalues')


def py2_attr(obj, name):
    if hasattr(obj, name):
        return getattr(obj, name)
    if name == '__func__' and isinstance(obj, types.FunctionType):
        return obj
    new = getattr(obj, _RENAMED.get(name, name))
    if name in _ITERS:
        return lambda: iter(new())
    return new


def py2_next(obj, *args):
    if hasattr(obj, 'next') or not hasattr(obj, '__next__'):
        return obj.next(*args)
    return next(obj, *args)


def py2_sorted(iterable, cmp=None, key=None, reverse=False):
    items = list(iterable)
    if cmp is not None:
        k = functools.cmp_to_key(cmp)
        f = k if key is None else (lambda x: k(key(x)))
        return builtins.sorted(items, key=f, reverse=reverse)
    try:
        return builtins.sorted(items, key=key, reverse=reverse)
    except TypeError:
        k = functools.cmp_to_key(py2_cmp)
        f = k if key is None else (lambda x: k(key(x)))
        return builtins.sorted(items, key=f, reverse=reverse)


def py2_sort(obj, *args, **kwargs):
    if isinstance(obj, list):
        obj[:] = py2_sorted(obj, *args, **kwargs)
        return None
    return obj.sort(*args, **kwargs)


def _minmax(builtin, sign):
    def f(*args, **kwargs):
        if len(args) == 1:
            args = (list(args[0]),)
        try:
            return builtin(*args, **kwargs)
        except TypeError:
            seq = list(args[0]) if len(args) == 1 else list(args)
            key = kwargs.get('key') or (lambda x: x)
            best = seq[0]
            for x in seq[1:]:
                if sign * py2_cmp(key(x), key(best)) < 0:
                    best = x
            return best
    f.__name__ = builtin.__name__
    return f


def py2_round(x, n=0):
    import math
    scale = 10. ** n
    y = abs(float(x)) * scale
    if math.isinf(y) or math.isnan(y) or y >= 2**52:
        return float(x)
    return math.copysign(math.floor(y + .5) / scale, x)


def py2_map(f, *seqs):
    if f is None:
        if len(seqs) == 1:
            return list(seqs[0])
        f = lambda *args: args
    if len(seqs) == 1:
        return [f(x) for x in seqs[0]]
    import itertools
    return [f(*xs) for xs in itertools.zip_longest(*seqs)]


def py2_filter(f, seq):
    if f is None:
        f = bool
    if isinstance(seq, str):
        return ''.join(x for x in seq if f(x))
    if isinstance(seq, tuple):
        return tuple(x for x in seq if f(x))
    return [x for x in seq if f(x)]


def py2_zip(*seqs):
    return list(builtins.zip(*seqs))


class _Py2Range(object):
    def __new__(cls, *args):
        return list(builtins.range(*[int(a) if not isinstance(a, float)
            else _noint(a) for a in args]))


def _noint(a):
    raise TypeError('integer argument expected, got float')


def py2_xrange(*args):
    return builtins.range(*args)


def py2_import_text(s):
    return s


class _Shim(types.ModuleType):
    pass


def _make_pickle():
    import pickle
    shim = _Shim('cPickle')
    shim.__dict__.update(
        {k: getattr(pickle, k) for k in pickle.__all__ if hasattr(pickle, k)})

    def load(f, *args, **kwargs):
        return pickle.load(getattr(f, 'buffer', f), *args, **kwargs)

    def dump(obj, f, *args, **kwargs):
        return pickle.dump(obj, getattr(f, 'buffer', f), *args, **kwargs)

    def loads(s, *args, **kwargs):
        if isinstance(s, str):
            s = s.encode('latin-1')
        return pickle.loads(s, *args, **kwargs)
    shim.load, shim.dump, shim.loads = load, dump, loads
    # Python 2 reports functions and local classes as PicklingError.
    shim.PicklingError = (pickle.PicklingError, AttributeError)
    return shim


def _make_base64():
    import base64
    shim = _Shim('base64')
    shim.__dict__.update({k: v for k, v in vars(base64).items()
        if not k.startswith('__')})

    def wrap(f):
        def g(s, *args, **kwargs):
            if isinstance(s, str):
                s = s.encode('latin-1')
            r = f(s, *args, **kwargs)
            return r.decode('ascii') if f.__name__.endswith(
                ('encode', 'encodestring')) else r
        return g
    for k in ('b64encode', 'b64decode', 'standard_b64encode',
            'standard_b64decode', 'urlsafe_b64encode', 'urlsafe_b64decode'):
        setattr(shim, k, wrap(getattr(base64, k)))
    return shim


_SHIMS = {}


def _shim(name):
    """Modules whose Python 2 namesake behaves differently."""
    if name not in _SHIMS:
        if name in ('cPickle', 'pickle'):
            _SHIMS['cPickle'] = _SHIMS['pickle'] = _make_pickle()
        elif name == 'base64':
            _SHIMS[name] = _make_base64()
        elif name in ('StringIO', 'cStringIO'):
            import io
            m = _Shim(name)
            m.StringIO = io.StringIO
            _SHIMS[name] = m
        elif name == 'Queue':
            import queue
            _SHIMS[name] = queue
        elif name == '__builtin__':
            m = _Shim(name)
            m.__dict__.update(PY2_BUILTINS)
            _SHIMS[name] = m
        elif name == 'itertools':
            import itertools
            m = _Shim(name)
            m.__dict__.update({k: v for k, v in vars(itertools).items()
                if not k.startswith('__')})
            m.imap, m.izip = builtins.map, builtins.zip
            m.ifilter = builtins.filter
            m.izip_longest = itertools.zip_longest
            m.ifilterfalse = itertools.filterfalse
            _SHIMS[name] = m
        elif name == 'string':
            import string
            m = _Shim(name)
            m.__dict__.update({k: v for k, v in vars(string).items()
                if not k.startswith('__')})
            m.letters = string.ascii_letters
            m.lowercase = string.ascii_lowercase
            m.uppercase = string.ascii_uppercase
            m.join = lambda words, sep=' ': sep.join(words)
            _SHIMS[name] = m
    return _SHIMS[name]


_SHIMMED = ('cPickle', 'pickle', 'base64', 'StringIO', 'cStringIO', 'Queue',
    '__builtin__', 'itertools', 'string')


def _py2_import_factory(module_name, is_package):
    package = module_name if is_package else module_name.rpartition('.')[0]

    def __import__(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in _SHIMMED:
            return _shim(name)
        if level == 0 and package and package != 'cgpm':
            # Implicit relative import: siblings come first in Python 2.
            top = name.split('.')[0]
            base = os.path.join(SRC, *package.split('.')[1:])
            if package.split('.')[0] == 'cgpm' and (
                    os.path.isfile(os.path.join(base, top + '.py'))
                    or os.path.isfile(
                        os.path.join(base, top, '__init__.py'))):
                if '%s.%s' % (package, top) != module_name:
                    return builtins.__import__(
                        name, globals, locals, fromlist, 1)
        return builtins.__import__(name, globals, locals, fromlist, level)
    return __import__


PY2_BUILTINS = dict(vars(builtins))
PY2_BUILTINS.update({
    'range': lambda *a: _Py2Range(*a),
    'xrange': py2_xrange,
    'map': py2_map,
    'filter': py2_filter,
    'zip': py2_zip,
    'reduce': functools.reduce,
    'unicode': str,
    'long': int,
    'basestring': str,
    'unichr': chr,
    'cmp': py2_cmp,
    'sorted': py2_sorted,
    'min': _minmax(builtins.min, 1),
    'max': _minmax(builtins.max, -1),
    'round': py2_round,
    'raw_input': builtins.input,
    'file': open,
    'intern': sys.intern,
    'apply': lambda f, a=(), k={}: f(*a, **k),
    'StandardError': Exception,
    '__py2_div__': py2_div,
    '__py2_idiv__': py2_idiv,
    '__py2_lt__': py2_lt,
    '__py2_le__': py2_le,
    '__py2_gt__': py2_gt,
    '__py2_ge__': py2_ge,
    '__py2_chain__': py2_chain,
    '__py2_keys__': py2_keys,
    '__py2_values__': py2_values,
    '__py2_items__': py2_items,
    '__py2_attr__': py2_attr,
    '__py2_next__': py2_next,
    '__py2_sort__': py2_sort,
})


# --------------------------------------------------------------------------
# AST.

class _Rewrite(ast.NodeTransformer):

    def __init__(self, true_division):
        self.true_division = true_division

    def _call(self, node, name, *args):
        return ast.copy_location(
            ast.Call(ast.Name(name, ast.Load()), list(args), []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.true_division:
            return self._call(node, '__py2_div__', node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.true_division:
            import copy
            load = copy.deepcopy(node.target)
            load.ctx = ast.Load()
            value = self._call(node, '__py2_idiv__', load, node.value)
            return ast.copy_location(
                ast.Assign([node.target], value), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        order = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
        if not any(type(op) in order for op in node.ops):
            return node
        if len(node.ops) == 1:
            return self._call(node,
                '__py2_%s__' % order[type(node.ops[0])],
                node.left, node.comparators[0])
        names = ast.Tuple(
            [ast.Constant(type(op).__name__) for op in node.ops], ast.Load())
        thunks = [
            ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
            for e in [node.left] + node.comparators
        ]
        return self._call(node, '__py2_chain__', names, *thunks)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and (
                node.attr in _RENAMED or node.attr == '__func__'):
            return self._call(node, '__py2_attr__', node.value,
                ast.Constant(node.attr))
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            plain = not node.args and not node.keywords
            if plain and f.attr in ('keys', 'values', 'items'):
                self.generic_visit(node)
                return self._call(
                    node, '__py2_%s__' % f.attr, node.func.value)
            if plain and f.attr == 'next':
                self.generic_visit(node)
                return self._call(node, '__py2_next__', node.func.value)
            if f.attr == 'sort' and (node.args or node.keywords or True):
                self.generic_visit(node)
                return ast.copy_location(ast.Call(
                    ast.Name('__py2_sort__', ast.Load()),
                    [node.func.value] + node.args, node.keywords), node)
        self.generic_visit(node)
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        names = {n.name for n in node.body if isinstance(n, ast.FunctionDef)}
        for old, new in (('__nonzero__', '__bool__'),
                ('next', '__next__'), ('__div__', '__truediv__')):
            if old in names and new not in names:
                node.body.append(ast.copy_location(ast.Assign(
                    [ast.Name(new, ast.Store())],
                    ast.Name(old, ast.Load())), node))
        return node


def compile_py2(source, filename):
    tree = to_py3_ast(source, filename)
    true_division = any(
        isinstance(n, ast.ImportFrom) and n.module == '__future__'
        and any(a.name == 'division' for a in n.names) for n in tree.body)
    tree = _Rewrite(true_division).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class _Loader(importlib.abc.Loader):

    def __init__(self, path, is_package):
        self.path = path
        self.is_package = is_package

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            source = f.read()
        code = compile_py2(source, self.path)
        scope = dict(PY2_BUILTINS)
        scope['__import__'] = _py2_import_factory(
            module.__name__, self.is_package)
        module.__file__ = self.path
        module.__dict__['__builtins__'] = scope
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, fullname, path=None, target=None):
        parts = fullname.split('.')
        if parts[0] != 'cgpm':
            return None
        base = os.path.join(SRC, *parts[1:])
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, _Loader(init, True), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            return importlib.machinery.ModuleSpec(
                fullname, _Loader(base + '.py', False), origin=base + '.py')
        if fullname == 'cgpm.version':
            # Written by setup.py, which a fresh tree has not run.
            return importlib.machinery.ModuleSpec(fullname, _NoVersion())
        return None


class _NoVersion(importlib.abc.Loader):

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = 'unknown'


# --------------------------------------------------------------------------
# Library drift between the conda recipe (numpy 1.11, scipy 0.17) and the venv.

def _shim_libraries():
    import numpy as np
    for name, value in (('float', float), ('int', int), ('bool', bool),
            ('object', object), ('long', int), ('unicode', str),
            ('str', str)):
        if name not in np.__dict__:
            setattr(np, name, value)
    try:
        import scipy.misc
        import scipy.special
        if 'logsumexp' not in vars(scipy.misc):
            scipy.misc.logsumexp = scipy.special.logsumexp
    except ImportError:
        pass


_INSTALLED = []


def install():
    if _INSTALLED:
        return
    if 'cgpm' in sys.modules:
        raise RuntimeError('cgpm imported before the loader')
    sys.dont_write_bytecode = True
    _shim_libraries()
    finder = _Finder()
    sys.meta_path.insert(0, finder)
    _INSTALLED.append(finder)
