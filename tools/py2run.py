"""Run cgpm (Python 2 sources) under Python 3: a meta-path importer translates
each module with lib2to3 in memory.  Usage: import py2run; py2run.install(REPO)"""
import ast
import importlib.abc
import importlib.util
import operator
import os
import sys
import types
import warnings

warnings.filterwarnings('ignore')


def translate(src, name):
    from lib2to3 import refactor
    global _TOOL
    try:
        tool = _TOOL
    except NameError:
        fx = ['lib2to3.fixes.fix_' + f for f in ('print', 'except', 'raise',
            'exec', 'repr', 'ne', 'has_key', 'dict', 'xrange', 'long', 'unicode', 'basestring', 'numliterals',
            'tuple_params', 'itertools', 'itertools_imports', 'reduce',
            'next', 'nonzero', 'import', 'imports', 'types', 'funcattrs')]
        tool = _TOOL = refactor.RefactoringTool(fx)
    if not src.endswith('\n'):
        src += '\n'
    return str(tool.refactor_string(src, name))


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, src):
        self.src = src

    def find_spec(self, name, path=None, target=None):
        if name != 'cgpm' and not name.startswith('cgpm.'):
            return None
        rel = name.split('.')[1:]
        p = os.path.join(self.src, *rel)
        if os.path.isdir(p):
            f, pkg = os.path.join(p, '__init__.py'), True
        else:
            f, pkg = p + '.py', False
        if not os.path.exists(f):
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=f,
            is_package=pkg)
        spec._file = f
        if pkg:
            spec.submodule_search_locations = [p]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__._file
        module.__file__ = f
        with open(f) as h:
            src = translate(h.read(), f)
        src = src.replace('.__func__.__doc__', '.__doc__')
        tree = ast.fix_missing_locations(Compare2().visit(ast.parse(src, f)))
        for n in ('map', 'filter', 'zip'):
            module.__dict__[n] = LISTED[n]
        exec(compile(tree, f, 'exec'), module.__dict__)


OPS = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt,
    'GtE': operator.ge}


def _py2cmp(left, *rest):
    """Python 2 ordering: None sorts before everything."""
    r = True
    for op, right in rest:
        a, b = left, right
        if a is None or b is None:
            a, b = a is not None, b is not None
        r = OPS[op](a, b)
        if not isinstance(r, np_ndarray) and not r:
            return r
        left = right
    return r


LISTED = {'map': lambda *a: list(map(*a)), 'zip': lambda *a: list(zip(*a)),
    'filter': lambda *a: list(filter(*a))}


class Compare2(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if not all(type(o).__name__ in OPS for o in n.ops):
            return n
        args = [n.left] + [ast.Tuple([ast.Constant(type(o).__name__), c],
            ast.Load()) for o, c in zip(n.ops, n.comparators)]
        return ast.copy_location(ast.Call(ast.Name('_py2cmp', ast.Load()),
            args, []), n)


def install(repo='.'):
    sys.dont_write_bytecode = True
    import numpy as np
    import scipy.special
    import scipy.stats
    import scipy.misc
    if not hasattr(scipy.misc, 'logsumexp'):
        try:
            scipy.misc.logsumexp = scipy.special.logsumexp
        except Exception:
            pass
    for n, v in (('float', float), ('int', int), ('bool', bool),
            ('object', object)):
        if n not in np.__dict__:
            setattr(np, n, v)
    sys.modules.setdefault('cPickle', __import__('pickle'))
    import builtins
    global np_ndarray
    np_ndarray = np.ndarray
    builtins._py2cmp = _py2cmp
    # Relative imports without a dot (Python 2) for relevance.
    sys.meta_path.insert(0, Finder(os.path.join(os.path.abspath(repo),
        'src')))
