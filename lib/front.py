"""Front end: parse the Python-2 sources of /repo/src and index them.

cgpm is Python-2-only.  Files that the Python-3 grammar accepts are parsed
directly; the others go through lib2to3 (Python-2 grammar) with only the
*syntactic* fixers below, in memory, and are then handed to `ast`.  No fixer
that changes library semantics (dict methods, xrange, map, ...) is applied.
"""
import ast
import hashlib
import os
import warnings

warnings.simplefilter('ignore')

SYNTACTIC_FIXERS = [
    'lib2to3.fixes.fix_' + n for n in (
        'print', 'except', 'raise', 'tuple_params', 'exec', 'repr', 'ne',
        'numliterals', 'paren')]

_TOOL = None


def _tool():
    global _TOOL
    if _TOOL is None:
        from lib2to3.refactor import RefactoringTool
        _TOOL = RefactoringTool(SYNTACTIC_FIXERS, {}, [])
    return _TOOL


class AnalysisBroken(Exception):
    """An anchor the analysis needs is missing: neither pass nor violation."""


def parse_py2(text, path):
    if not text.endswith('\n'):
        text += '\n'
    try:
        tree = ast.parse(text, path)
    except SyntaxError:
        tree = ast.parse(str(_tool().refactor_string(text, path)), path)
    return normal(tree)


def normal(tree):
    return ast.fix_missing_locations(Idioms().visit(Asserts().visit(tree)))


def _path(e):
    """A chain of names, attributes and constant or named subscripts."""
    if isinstance(e, ast.Attribute):
        return _path(e.value)
    if isinstance(e, ast.Subscript):
        return _path(e.value) and (isinstance(e.slice, ast.Constant) or
            _path(e.slice))
    return isinstance(e, ast.Name)


def _minus_one(e):
    return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and \
        isinstance(e.operand, ast.Constant) and e.operand.value == 1


def _lookup(s):
    """(d, k) of a statement that does nothing but look k up in d."""
    v = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
        isinstance(s.targets[0], ast.Name) else s.value if isinstance(s, (
            ast.Expr, ast.Return)) else None
    if isinstance(s, ast.Delete) and len(s.targets) == 1:
        v = s.targets[0]
    if isinstance(v, ast.Subscript):
        d, k = v.value, v.slice
    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
            v.func.attr == 'pop' and len(v.args) == 1 and not v.keywords:
        d, k = v.func.value, v.args[0]
    else:
        return None

    def plain(x):
        while isinstance(x, ast.Attribute) or isinstance(x, ast.Subscript) \
                and isinstance(x.slice, ast.Constant):
            x = x.value
        return isinstance(x, (ast.Name, ast.Constant))
    return (d, k) if plain(d) and plain(k) else None


class Idioms(ast.NodeTransformer):
    """One spelling for statements that do the same."""

    def visit_Name(self, node):
        if node.id == 'xrange' and isinstance(node.ctx, ast.Load):
            node.id = 'range'
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, self.block(b))
        return node

    def block(self, body):
        out = []
        for i, s in enumerate(body):
            s = self.found(s, body[i + 1:])
            s = self.counted(s, out, body[i + 1:])
            s = self.rotated(s, out)
            s = self.filled(s)
            for s in self.leaving(s) or self.stmt(s):
                p = self.publish(out[-1], s) if out else None
                if p:
                    out[-1:] = p
                else:
                    out.append(s)
        return out

    def stmt(self, s):
        at = lambda n: ast.copy_location(n, s)
        # del x[-1]: x.pop()
        if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Subscript) and _minus_one(
                    s.targets[0].slice):
            return [at(ast.Expr(at(ast.Call(at(ast.Attribute(
                s.targets[0].value, 'pop', ast.Load())), [], []))))]
        # try: v = d.pop(k) / except KeyError: ..: if k not in d: ..
        if isinstance(s, ast.Try) and len(s.body) == 1 and \
                len(s.handlers) == 1 and not s.finalbody and \
                not s.handlers[0].name and isinstance(s.handlers[0].type,
                    ast.Name) and s.handlers[0].type.id == 'KeyError':
            d = _lookup(s.body[0])
            if d is not None:
                return [at(ast.If(at(ast.Compare(d[1], [ast.NotIn()],
                    [d[0]])), s.handlers[0].body, s.body + s.orelse))]
        c = s.value if isinstance(s, ast.Expr) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                len(c.args) == 1 and not c.keywords:
            a = c.args[0]
            if c.func.attr == 'pop' and _minus_one(a):
                c.args = []
            # x.update({k: v}): x[k] = v
            if c.func.attr == 'update' and isinstance(a, ast.Dict) and \
                    a.keys and None not in a.keys and _path(c.func.value):
                return [at(ast.Assign([at(ast.Subscript(c.func.value, k,
                    ast.Store()))], v)) for k, v in zip(a.keys, a.values)]
        return [s]

    def found(self, s, rest):
        """for x in S: if C: ..; break: if any(C for x in S): .."""
        if not (isinstance(s, ast.For) and len(s.body) == 1 and
                isinstance(s.body[0], ast.If) and not s.body[0].orelse and
                len(s.body[0].body) > 1 and
                isinstance(s.body[0].body[-1], ast.Break)):
            return s
        c, does = s.body[0].test, s.body[0].body[:-1]
        mine = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for b in does + rest:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in mine or isinstance(n,
                        (ast.Break, ast.Continue)) and b in does:
                    return s
        at = lambda n: ast.copy_location(n, s)
        g = at(ast.GeneratorExp(c, [ast.comprehension(s.target, s.iter, [],
            0)]))
        return at(ast.If(at(ast.Call(at(ast.Name('any', ast.Load())), [g],
            [])), does, s.orelse))

    def filled(self, s):
        """for k, v in d.items(): x[k] = v: x.update(d)"""
        if not (isinstance(s, ast.For) and not s.orelse and len(s.body) == 1
                and isinstance(s.body[0], ast.Assign) and
                len(s.body[0].targets) == 1):
            return s
        t, v = s.body[0].targets[0], s.body[0].value
        if not (isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name)
                and isinstance(t.value, ast.Name)):
            return s
        if not (isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2
                and isinstance(s.iter, ast.Call) and not s.iter.args and
                isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr
                in ('items', 'iteritems') and all(isinstance(x, ast.Name)
                for x in s.target.elts + [v])):
            return s
        a, b = [x.id for x in s.target.elts]
        if (t.slice.id, v.id) != (a, b) or t.value.id in (a, b):
            return s
        at = lambda n: ast.copy_location(n, s)
        return at(ast.Expr(at(ast.Call(at(ast.Attribute(t.value, 'update',
            ast.Load())), [s.iter.func.value], []))))

    def leaving(self, s):
        """while True: ..; if c: A; break: the A comes after the loop."""
        if not (isinstance(s, ast.While) and not s.orelse and isinstance(
                s.test, ast.Constant) and s.test.value is True or
                isinstance(s, ast.While) and not s.orelse and isinstance(
                s.test, ast.Name) and s.test.id == 'True'):
            return None
        outs = []

        def breaks(n):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.Break):
                    outs.append(x)
                elif isinstance(x, (ast.For, ast.While)):
                    breaks(ast.Module(x.orelse, []))
                elif not isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    breaks(x)
        breaks(s)
        if len(outs) != 1:
            return None
        for b in s.body:
            if isinstance(b, ast.If) and b.body[-1] is outs[0] and \
                    len(b.body) > 1:
                tail = b.body[:-1]
                b.body = b.body[-1:]
                return [s] + tail
        return None

    def rotated(self, s, before):
        """A; while c: B; A is `while True: A; if not c: break; B`."""
        if not (isinstance(s, ast.While) and not s.orelse and before and
                len(s.body) > 1 and isinstance(s.body[-1], ast.Assign)):
            return s
        n = 0
        while n < min(len(before), len(s.body) - 1) and isinstance(
                before[-1 - n], ast.Assign) and ast.dump(
                before[-1 - n]) == ast.dump(s.body[-1 - n]):
            n += 1
        if not n or any(isinstance(x, (ast.Continue, ast.Break))
                for b in s.body for x in ast.walk(b)):
            return s
        head = before[-n:]
        del before[-n:]
        at = lambda n: ast.copy_location(n, s)
        t = s.test
        t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(
            t.op, ast.Not) else at(ast.UnaryOp(ast.Not(), t))
        return at(ast.While(at(ast.Constant(True)), head + [at(ast.If(t,
            [at(ast.Break())], [])), *s.body[:-n]], []))

    def counted(self, s, before, rest):
        """while n > 0: ..; n -= 1 is `for _ in range(n)`; i = 0; while
        i < n: ..; i += 1 is `for i in range(n)`."""
        if not (isinstance(s, ast.While) and not s.orelse and len(s.body) > 1
                and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1
                and isinstance(s.body[-1], ast.AugAssign) and isinstance(
                s.body[-1].target, ast.Name) and isinstance(
                s.body[-1].value, ast.Constant) and s.body[-1].value.value
                == 1):
            return s
        l, r, o = s.test.left, s.test.comparators[0], s.test.ops[0]
        if isinstance(o, (ast.Gt, ast.GtE)):
            l, r, o = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(o)]()
        if not isinstance(o, ast.Lt):
            return s
        body, last = s.body[:-1], s.body[-1]
        i = last.target.id
        used, set_ = set(), set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name):
                    (used if isinstance(n.ctx, ast.Load) else set_).add(n.id)
                elif isinstance(n, ast.Continue):
                    return s
        later = {n.id for b in rest for n in ast.walk(b)
            if isinstance(n, ast.Name)}
        if i in set_ or i in later:
            return s
        at = lambda n: ast.copy_location(n, s)
        zero = lambda n: isinstance(n, ast.Constant) and n.value == 0 and \
            n.value is not False
        if isinstance(last.op, ast.Sub) and zero(l) and isinstance(r,
                ast.Name) and r.id == i and i not in used:
            n, t = r, at(ast.Name('_', ast.Store()))
        elif isinstance(last.op, ast.Add) and isinstance(l, ast.Name) and \
                l.id == i and before and isinstance(before[-1], ast.Assign) \
                and len(before[-1].targets) == 1 and isinstance(
                before[-1].targets[0], ast.Name) and \
                before[-1].targets[0].id == i and zero(before[-1].value) and (
                isinstance(r, ast.Name) and r.id not in set_ and r.id != i or
                isinstance(r, ast.Constant)):
            n, t = r, at(ast.Name(i, ast.Store()))
        else:
            return s
        return at(ast.For(t, at(ast.Call(at(ast.Name('range', ast.Load())),
            [n], [])), body, []))

    def publish(self, first, loop):
        """self.A = {}; for ..: self.A[k] = v: the container is filled
        before it is made visible, when the loop cannot see it."""
        if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and
                isinstance(loop, ast.For) and not loop.orelse):
            return None
        t, v = first.targets[0], first.value
        if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)
                and t.value.id == 'self'):
            return None
        if isinstance(v, ast.Call):
            if v.args or v.keywords or ast.unparse(v.func).split('.')[-1] \
                    not in ('dict', 'list', 'set', 'OrderedDict'):
                return None
        elif not (isinstance(v, ast.Dict) and not v.keys or isinstance(v,
                ast.List) and not v.elts):
            return None
        fills, other = [], False
        keep = set()
        for n in ast.walk(loop):
            if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Try,
                    ast.Yield, ast.Lambda, ast.FunctionDef, ast.Assert)):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                r = n.func.value
                if isinstance(r, ast.Name) and r.id == 'self':
                    return None
                if isinstance(r, ast.Attribute) and ast.dump(r) == ast.dump(
                        ast.Attribute(ast.Name('self', ast.Load()), t.attr,
                            ast.Load())) and n.func.attr in ('append', 'add'):
                    keep.add(id(r))
                    fills.append(r)
            if isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Subscript) and isinstance(x.value,
                            ast.Attribute) and x.value.attr == t.attr and \
                            isinstance(x.value.value, ast.Name) and \
                            x.value.value.id == 'self':
                        keep.add(id(x.value))
                        fills.append(x.value)
        for n in ast.walk(loop):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                    and n.value.id == 'self':
                if n.attr == t.attr and id(n) not in keep:
                    return None
                keep.add(id(n.value))
        for n in ast.walk(loop):
            if isinstance(n, ast.Name) and n.id == 'self' and id(n) not in \
                    keep:
                return None
        if len(fills) != 1:
            return None
        name = '_filled_' + t.attr

        class Sub(ast.NodeTransformer):
            def visit_Attribute(self, n):
                if n is fills[0]:
                    return ast.copy_location(ast.Name(name, ast.Load()), n)
                return self.generic_visit(n)
        at = lambda n: ast.copy_location(n, first)
        return [at(ast.Assign([at(ast.Name(name, ast.Store()))], v)),
            Sub().visit(loop),
            ast.copy_location(ast.Assign([t], at(ast.Name(name,
                ast.Load()))), loop)]


class Asserts(ast.NodeTransformer):
    """`if c: raise AssertionError(..)` is `assert not c`."""

    def visit_If(self, node):
        self.generic_visit(node)
        b = node.body[0]
        if len(node.body) == 1 and not node.orelse and isinstance(b,
                ast.Raise) and b.exc is not None:
            e = b.exc.func if isinstance(b.exc, ast.Call) else b.exc
            if isinstance(e, ast.Name) and e.id == 'AssertionError':
                return ast.copy_location(ast.Assert(ast.copy_location(
                    ast.UnaryOp(ast.Not(), node.test), node.test), None),
                    node)
        return node


class Module(object):
    def __init__(self, name, path, tree, text):
        self.name = name
        self.path = path
        self.tree = tree
        self.text = text
        self.imports = {}     # local name -> dotted target
        self.functions = {}   # name -> Func
        self.classes = {}     # name -> Class
        self.consts = {}      # name -> ast node assigned at module level
        self.future_division = 'from __future__ import division' in text


class Func(object):
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.decorators = [ast.unparse(d) for d in
            getattr(node, 'decorator_list', [])]
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.defaults = [None] * (len(self.params) - len(a.defaults)) \
            + list(a.defaults)
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def qual(self):
        if self.cls:
            return '%s.%s.%s' % (self.module.name, self.cls.name, self.name)
        return '%s.%s' % (self.module.name, self.name)

    @property
    def short(self):
        if self.cls:
            return '%s.%s' % (self.cls.name, self.name)
        return '%s.%s' % (self.module.name.split('.')[-1], self.name)

    def where(self, node=None):
        n = node if node is not None else self.node
        return '%s:%s' % (os.path.join('src', self.module.relpath),
            getattr(n, 'lineno', '?'))

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class(object):
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}       # class-level assignments
        self.base_nodes = node.bases
        self.bases = []

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, self.name)

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_super(self, name, after):
        """Next definition of `name` after class `after` in the MRO."""
        m = self.mro()
        i = m.index(after) + 1 if after in m else 1
        for c in m[i:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return '<Class %s>' % self.qual


class Index(object):
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, 'src')
        self.modules = {}
        self.digest = hashlib.sha256()
        self._load()

    def _load(self):
        if not os.path.isdir(self.src):
            raise AnalysisBroken('no source directory %s' % self.src)
        paths = []
        for d, dirs, files in os.walk(self.src):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    paths.append(os.path.join(d, f))
        for p in paths:
            rel = os.path.relpath(p, self.src)
            parts = rel[:-3].split(os.sep)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            name = '.'.join(['cgpm'] + parts)
            with open(p, 'rb') as f:
                raw = f.read()
            self.digest.update(rel.encode() + b'\0' + raw)
            text = raw.decode('utf-8')
            try:
                tree = parse_py2(text, p)
            except Exception as e:
                raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
            m = Module(name, p, tree, text)
            m.relpath = rel
            self.modules[name] = m
        for m in self.modules.values():
            self._index_module(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_nodes:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)

    def _index_module(self, m):
        def imports(body):
            for s in body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = self.abs_module(m, a.name)
                        elif '.' not in a.name:
                            m.imports[a.name] = self.abs_module(m, a.name)
                        else:
                            m.imports[a.name.split('.')[0]] = \
                                a.name.split('.')[0]
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        m.imports[a.asname or a.name] = '%s.%s' % (
                            self.abs_module(m, s.module, s.level), a.name)
        imports([n for n in ast.walk(m.tree)
            if isinstance(n, (ast.Import, ast.ImportFrom))])
        for s in m.tree.body:
            self._index_stmt(m, s)

    def _index_stmt(self, m, s):
        if isinstance(s, ast.FunctionDef):
            m.functions[s.name] = Func(s.name, s, m)
        elif isinstance(s, ast.ClassDef):
            c = Class(s.name, s, m)
            m.classes[s.name] = c
            for t in s.body:
                if isinstance(t, ast.FunctionDef):
                    c.methods[t.name] = Func(t.name, t, m, c)
                elif isinstance(t, ast.Assign):
                    for x in t.targets:
                        if isinstance(x, ast.Name):
                            c.attrs[x.id] = t.value
        elif isinstance(s, ast.Assign):
            for x in s.targets:
                if isinstance(x, ast.Name):
                    m.consts[x.id] = s.value
                elif isinstance(x, (ast.Tuple, ast.List)):
                    pass
        elif isinstance(s, (ast.If, ast.Try)):
            for t in ast.iter_child_nodes(s):
                if isinstance(t, ast.stmt):
                    self._index_stmt(m, t)

    # -- Name resolution ---------------------------------------------------

    def abs_module(self, m, name, level=0):
        """Absolute module name, with Python 2's implicit relative imports."""
        pkg = m.name if m.path.endswith('__init__.py') else \
            m.name.rpartition('.')[0]
        if level:
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            return pkg + '.' + name if name else pkg
        if pkg and name:
            if '%s.%s' % (pkg, name) in self.modules:
                return '%s.%s' % (pkg, name)
        return name

    def dotted(self, node):
        if isinstance(node, ast.Name):
            return node.id
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value)
            return b and b + '.' + node.attr
        return None

    def resolve_dotted(self, name):
        """Dotted path -> Module/Class/Func or None."""
        seen = 0
        while seen < 5:
            if name in self.modules:
                return self.modules[name]
            if '.' not in name:
                return None
            head, tail = name.rsplit('.', 1)
            base = self.resolve_dotted(head)
            if isinstance(base, Module):
                if tail in base.classes:
                    return base.classes[tail]
                if tail in base.functions:
                    return base.functions[tail]
                if tail in base.imports and base.imports[tail] != name:
                    name = base.imports[tail]
                    seen += 1
                    continue
                return None
            if isinstance(base, Class):
                return base.lookup(tail)
            return None
        return None

    def full_name(self, m, node):
        """Absolute dotted path of an expression, through m's imports."""
        d = self.dotted(node)
        if d is None:
            return None
        head, _, rest = d.partition('.')
        if head in m.imports:
            full = m.imports[head]
        elif head in m.classes or head in m.functions or head in m.consts:
            full = m.name + '.' + head
        else:
            full = head
        return full + ('.' + rest if rest else '')

    def resolve_expr(self, m, node):
        full = self.full_name(m, node)
        return self.resolve_dotted(full) if full else None

    def cls(self, dotted):
        r = self.resolve_dotted(dotted)
        if not isinstance(r, Class):
            raise AnalysisBroken('class %s not found' % dotted)
        return r

    def fn(self, dotted):
        r = self.resolve_dotted(dotted)
        if not isinstance(r, Func):
            raise AnalysisBroken('function %s not found' % dotted)
        return r

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def subclasses(self, base, strict=False):
        return [c for c in self.all_classes() if base in c.mro()
            and not (strict and c is base)]
