"""C10: everything that is used exists and is used as it is declared."""
import ast
import builtins
import symtable

from effects import *       # noqa
from front import Class, Func, Module
from rules.mixture import Kit
import lit

PY2 = {'basestring', 'unicode', 'xrange', 'raw_input', 'reduce', 'long',
    'unichr', 'cmp', 'file', 'execfile', 'buffer', 'apply', 'coerce',
    'intern', 'reload', '__file__', '__name__', '__doc__', '__builtins__',
    '__path__', '__package__'}
BUILTINS = set(dir(builtins)) | PY2


# --------------------------------------------------------------------------
# Names.

def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for n in targets(x):
                yield n
    elif isinstance(t, ast.Starred):
        for n in targets(t.value):
            yield n


FUNCS = (ast.FunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(node):
    """Nodes of a function, not those of the functions inside it."""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNCS):
            a = n.args
            stack.extend(a.defaults + [d for d in a.kw_defaults if d])
            stack.extend(getattr(n, 'decorator_list', []))
        elif isinstance(n, ast.ClassDef):
            stack.extend(n.bases + n.decorator_list)
        else:
            stack.extend(ast.iter_child_nodes(n))


def arguments(node):
    a = node.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def bound(node):
    """Names a function or module binds."""
    out = set(arguments(node)) if isinstance(node, FUNCS) else set()
    glob = set()
    for n in own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split('.')[0] for a in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
    return out - glob


def names(ctx, m):
    """(name node, function) of the names nothing binds."""
    top = bound(m.tree) | BUILTINS

    def scan(node, seen, where):
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id not in seen:
                yield n, where
            if isinstance(n, FUNCS):
                w = n.name if isinstance(n, ast.FunctionDef) else where
                for x in scan(n, seen | bound(n), w):
                    yield x
            elif isinstance(n, ast.ClassDef):
                inner = bound(n)
                for s in n.body:
                    if isinstance(s, ast.FunctionDef):
                        for x in scan(s, seen | bound(s), '%s.%s' % (n.name,
                                s.name)):
                            yield x
                        for d in s.decorator_list + s.args.defaults:
                            for y in ast.walk(d):
                                if isinstance(y, ast.Name) and y.id not in \
                                        seen | inner:
                                    yield y, n.name
                    else:
                        for y in ast.walk(s):
                            if isinstance(y, ast.Name) and isinstance(y.ctx,
                                    ast.Load) and y.id not in seen | inner:
                                yield y, n.name
    return list(scan(m.tree, top, m.name.split('.')[-1]))


# --------------------------------------------------------------------------
# Definite assignment.

class Unbound(object):
    """Local names that may be read before anything is assigned to them.
    Loops are taken to run at least once."""

    def __init__(self, node):
        self.node = node
        self.local = bound(node)
        self.out = []
        self.under = {}
        self.block(node.body, set(arguments(node)))

    def reads(self, e, have):
        """Loads of e in the order they happen, as far as it matters."""
        if e is None:
            return
        comp = set()
        for n in ast.walk(e):
            if isinstance(n, COMPS):
                for g in n.generators:
                    comp.update(targets(g.target))
            elif isinstance(n, ast.Lambda):
                comp.update(bound(n) | {x.id for x in ast.walk(n.body)
                    if isinstance(x, ast.Name)})
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in self.local and n.id not in have and \
                    n.id not in comp:
                self.out.append(n)
        # List comprehensions leak their variables in Python 2.
        for n in ast.walk(e):
            if isinstance(n, ast.ListComp):
                for g in n.generators:
                    have.update(targets(g.target))

    def block(self, body, have):
        """Names assigned afterwards; None when the end is not reached."""
        for s in body:
            if have is None:
                return None
            have = self.stmt(s, have)
        return have

    def join(self, *states):
        states = [s for s in states if s is not None]
        return set.intersection(*states) if states else None

    def stmt(self, s, have):
        have = set(have)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
            return have
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            have.update((a.asname or a.name).split('.')[0] for a in s.names)
            return have
        if isinstance(s, ast.If):
            self.reads(s.test, have)
            c = constant(s.test)
            k, same = outcome(s.test)
            a = self.block(s.body, have | self.under.get((k, same), set())) \
                if c is not False else None
            b = self.block(s.orelse, have | self.under.get((k, not same),
                set())) if c is not True else None
            # The same test later on has the same outcome.
            for key, end in (((k, same), a), ((k, not same), b)):
                if end is not None:
                    self.under[key] = self.under.get(key, set()) | end
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.reads(s.iter, have)
                inner = have | set(targets(s.target))
            else:
                self.reads(s.test, have)
                inner = set(have)
            self.breaks = getattr(self, 'breaks', [])
            self.breaks.append([])
            end = self.block(s.body, set(inner))
            brk = self.breaks.pop()
            if isinstance(s, ast.While) and constant(s.test) is True:
                return self.join(*brk)
            end = inner if end is None else end
            if s.orelse:
                end = self.block(s.orelse, end)
            return self.join(end, *brk)
        if isinstance(s, (ast.Break, ast.Continue)):
            if isinstance(s, ast.Break) and getattr(self, 'breaks', None):
                self.breaks[-1].append(have)
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.reads(e, have)
            return None
        if isinstance(s, ast.Try):
            end = self.block(s.body, set(have))
            outs = [self.block(s.orelse, end) if end is not None else None]
            for h in s.handlers:
                hv = set(have)
                if h.name:
                    hv.add(h.name)
                outs.append(self.block(h.body, hv))
            r = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, set(have))
                r = None if f is None or r is None else r | f
            return r
        if isinstance(s, ast.With):
            for i in s.items:
                self.reads(i.context_expr, have)
                if i.optional_vars is not None:
                    have.update(targets(i.optional_vars))
            return self.block(s.body, have)
        if isinstance(s, ast.Assert):
            self.reads(s.test, have)
            if constant(s.test) is False:
                return None
            return have
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
                else:
                    self.reads(t, have)
            return have
        if isinstance(s, ast.Assign):
            self.reads(s.value, have)
            for t in s.targets:
                self.reads(t, have)
                have.update(targets(t))
            return have
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, have)
            if isinstance(s.target, ast.Name):
                self.reads(ast.Name(s.target.id, ast.Load(),
                    lineno=s.lineno), have)
            else:
                self.reads(s.target, have)
            return have
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.reads(e, have)
        return have


def outcome(e):
    same = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, same = e.operand, not same
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        for no, yes in ((ast.IsNot, ast.Is), (ast.NotEq, ast.Eq),
                (ast.NotIn, ast.In)):
            if isinstance(e.ops[0], no):
                return ast.unparse(ast.Compare(e.left, [yes()],
                    e.comparators)), not same
    return ast.unparse(e), same


def constant(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        c = constant(e.operand)
        return None if c is None else not c
    return bool(e.value) if isinstance(e, ast.Constant) else None


# --------------------------------------------------------------------------
# Attributes and calls.

class Inst(object):
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, Inst) and o.cls is self.cls

    def __hash__(self):
        return hash(self.cls.qual)


class Of(object):
    def __init__(self, elt):
        self.elt = elt

    def __eq__(self, o):
        return isinstance(o, Of) and o.elt == self.elt

    def __hash__(self):
        return hash(('of', self.elt))


class Bound(object):
    """A function with its receiver already given."""

    def __init__(self, f, skip):
        self.f, self.skip = f, skip


ANY = None


class Typing(object):
    def __init__(self, ctx):
        self.ctx, self.ix, self.types = ctx, ctx.ix, ctx.types
        self.params = {}        # (function qual, name) -> type or False
        self.fields = {}
        for c in self.ix.all_classes():
            s = set(c.methods) | set(c.attrs)
            for f in c.methods.values():
                me = f.params[0] if f.params and not f.is_static else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx,
                            ast.Store) and isinstance(n.value, ast.Name) and \
                            n.value.id == me:
                        s.add(n.attr)
                    if isinstance(n, ast.Call) and ast.unparse(n.func) == \
                            'setattr':
                        s.add('*')
            if any(b is None or isinstance(b, str) for b in self.bases(c)):
                s.add('*')
            self.fields[c] = s

    def bases(self, c):
        out = []
        for b in c.base_nodes:
            r = self.ix.resolve_expr(c.module, b)
            n = ast.unparse(b)
            out.append(r if isinstance(r, Class) else
                (True if n == 'object' else n))
        return out

    def has(self, c, attr):
        return any(attr in self.fields[k] or '*' in self.fields[k]
            for k in c.mro())

    def offers(self, c, attr):
        """Does every model that may stand behind c have the attribute?"""
        if self.has(c, attr) or attr.startswith('__'):
            return True
        subs = self.ix.subclasses(c, strict=True)
        return bool(subs) and any(self.has(k, attr) for k in subs)

    def made(self, r):
        """Type from the shared table's form."""
        if isinstance(r, Class):
            return Inst(r)
        if isinstance(r, tuple) and r[0] == 'of' and r[1] is not None:
            return Of(self.made(r[1]))
        return ANY


class Body(object):
    """Flow-insensitive types in one function; reports what is missing."""

    def __init__(self, T, f, node=None, env=None):
        self.T, self.f, self.ix = T, f, T.ix
        self.m = f.module
        self.env = dict(env or {})
        self.found = []
        self.calls = []
        node = node or f.node
        a = arguments(node)
        first = a[0] if a else None
        for n in a:
            t = T.params.get((f.qual, n))
            self.env[n] = t if t else ANY
        if f.cls is not None and first and not f.is_static:
            self.env[first] = f.cls if f.is_classmethod else Inst(f.cls)
        self.locals = bound(node)
        many = {}
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                many[n.id] = many.get(n.id, 0) + 1
        self.many = many
        for _ in range(2):
            for n in own(node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    self.assign(n.targets[0], self.ty(n.value))
                elif isinstance(n, ast.For):
                    self.assign(n.target, self.each(n.iter))
                elif isinstance(n, COMPS):
                    for g in n.generators:
                        self.assign(g.target, self.each(g.iter))
        for n in own(node):
            if isinstance(n, ast.Attribute):
                self.attribute(n)
            elif isinstance(n, ast.Call):
                self.call(n)
            if isinstance(n, FUNCS) and n is not node:
                b = Body(T, Func(getattr(n, 'name', 'lambda'), n, self.m)
                    if isinstance(n, ast.FunctionDef) else
                    Func('lambda', n, self.m), n, {k: v for k, v in
                    self.env.items()})
                self.found += b.found
                self.calls += b.calls

    def assign(self, t, ty):
        if isinstance(t, ast.Name):
            if self.many.get(t.id, 0) <= 1 and t.id not in arguments(
                    self.f.node):
                self.env[t.id] = ty
            elif t.id in self.env and self.env[t.id] == ty:
                pass
            else:
                self.env[t.id] = ANY
        elif isinstance(t, (ast.Tuple, ast.List)):
            tys = ty if isinstance(ty, tuple) and len(ty) == len(t.elts) \
                else [ANY] * len(t.elts)
            for x, y in zip(t.elts, tys):
                self.assign(x, y)

    def each(self, e):
        if isinstance(e, ast.Call):
            n = e.func
            if isinstance(n, ast.Attribute) and not e.args:
                b = self.ty(n.value)
                if isinstance(b, Of):
                    if n.attr in ('values', 'itervalues'):
                        return b.elt
                    if n.attr in ('items', 'iteritems'):
                        return (ANY, b.elt)
                    return ANY
            if isinstance(n, ast.Name) and n.id == 'enumerate' and e.args:
                return (ANY, self.each(e.args[0]))
            if isinstance(n, ast.Name) and n.id in ('zip', 'izip'):
                return tuple(self.each(x) for x in e.args)
            if isinstance(n, ast.Name) and n.id in ('list', 'sorted',
                    'reversed', 'tqdm', 'iter') and e.args:
                return self.each(e.args[0])
        t = self.ty(e)
        if isinstance(t, Of) and not self.keyed(e):
            return t.elt
        return ANY

    def keyed(self, e):
        """Iterating a dictionary gives its keys."""
        if isinstance(e, ast.Attribute):
            b = self.ty(e.value)
            if isinstance(b, Inst):
                r = self.T.types.attr(b.cls, e.attr)
                return isinstance(r, tuple) and r[2] == 'dict'
        return False

    def ty(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id in self.locals:
                return ANY
            r = self.ix.resolve_expr(self.m, e)
            return r
        if isinstance(e, ast.Attribute):
            b = self.ty(e.value)
            if isinstance(b, Inst):
                for c in b.cls.mro():
                    if e.attr in c.methods:
                        g = c.methods[e.attr]
                        return Bound(g, 0 if g.is_static else 1)
                return self.T.made(self.T.types.attr(b.cls, e.attr))
            if isinstance(b, Class):
                g = b.lookup(e.attr)
                return None if g is None else Bound(g, 1
                    if g.is_classmethod else 0)
            if isinstance(b, Module):
                return self.ix.resolve_dotted(b.name + '.' + e.attr)
            return ANY
        if isinstance(e, ast.Subscript):
            b = self.ty(e.value)
            if isinstance(b, Of):
                return b if isinstance(e.slice, ast.Slice) else b.elt
            return ANY
        if isinstance(e, ast.Call):
            f = self.ty(e.func)
            if isinstance(f, Class):
                return Inst(f)
            if isinstance(f, Bound) and isinstance(e.func, ast.Attribute):
                b = self.ty(e.func.value)
                if isinstance(b, Inst):
                    from typeinfo import METHOD_TYPES
                    for c in b.cls.mro():
                        q = METHOD_TYPES.get((c.name, e.func.attr))
                        if q:
                            return Inst(self.ix.cls(q))
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    'values', 'itervalues') and not e.args:
                b = self.ty(e.func.value)
                return b if isinstance(b, Of) else ANY
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                    self.f.cls is not None and self.f.cls.bases:
                return Inst(self.f.cls.bases[0])
            return ANY
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            t = self.ty(e.elt)
            return Of(t) if t is not ANY else ANY
        if isinstance(e, ast.DictComp):
            t = self.ty(e.value)
            return Of(t) if t is not ANY else ANY
        if isinstance(e, ast.List) and e.elts:
            t = [self.ty(x) for x in e.elts]
            return Of(t[0]) if t[0] is not ANY and all(x == t[0]
                for x in t) else ANY
        if isinstance(e, ast.IfExp):
            a, b = self.ty(e.body), self.ty(e.orelse)
            return a if a == b else ANY
        return ANY

    def attribute(self, n):
        b = self.ty(n.value)
        if isinstance(b, Inst):
            ok = self.T.offers(b.cls, n.attr)
            self.found.append((ok, n, '%s has no attribute %s' % (
                b.cls.name, n.attr)))
        elif isinstance(b, Class):
            ok = self.T.offers(b, n.attr)
            self.found.append((ok, n, '%s has no attribute %s' % (b.name,
                n.attr)))
        elif isinstance(b, Module):
            ok = n.attr in b.functions or n.attr in b.classes or \
                n.attr in b.imports or n.attr in bound(b.tree) or \
                b.name + '.' + n.attr in self.ix.modules or \
                n.attr.startswith('__')
            self.found.append((ok, n, 'module %s has no %s' % (b.name,
                n.attr)))

    def call(self, n):
        t = self.ty(n.func)
        if isinstance(t, Class):
            g = t.lookup('__init__')
            if g is None:
                return
            t = Bound(g, 1)
        if isinstance(t, Func):
            t = Bound(t, 0)
        if not isinstance(t, Bound):
            return
        gs = [(t.f, t.skip)]
        if isinstance(n.func, ast.Attribute):
            b = self.ty(n.func.value)
            if isinstance(b, Inst) and not (isinstance(n.func.value, ast.Name)
                    and n.func.value.id == 'self') and not (isinstance(
                    n.func.value, ast.Call)):
                # Any model may stand behind it.
                for c in self.ix.subclasses(b.cls, strict=True):
                    g = c.methods.get(n.func.attr)
                    if g is not None:
                        gs.append((g, 0 if g.is_static else 1))
        abstract = len(gs) > 1 and raises(t.f)
        for g, skip in gs:
            if abstract and g is t.f:
                continue
            msg = misfit(n, g, skip)
            self.found.append((msg is None, n, 'call of %s: %s' % (g.short,
                msg)))
            self.bind(n, g, skip)

    def bind(self, n, g, skip):
        ps = g.params[skip:]
        if any(isinstance(a, ast.Starred) for a in n.args):
            return
        for p, a in list(zip(ps, n.args)) + [(k.arg, k.value)
                for k in n.keywords if k.arg]:
            self.calls.append(((g.qual, p), self.ty(a)))


def raises(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and
        isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Raise)


def misfit(n, g, skip):
    """Why the arguments of a call do not fit the parameters, or None."""
    if 'simulate_many' in ' '.join(g.decorators):
        pass
    elif any(d not in ('staticmethod', 'classmethod', 'property')
            and not d.split('.')[-1].startswith('simulate_many')
            for d in g.decorators):
        return None
    a = g.node.args
    ps = g.params[skip:]
    defaults = g.defaults[skip:]
    star = any(isinstance(x, ast.Starred) for x in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    npos = len([x for x in n.args if not isinstance(x, ast.Starred)])
    if npos > len(ps) and not a.vararg:
        return '%d positional arguments for %d parameters' % (npos, len(ps))
    given = set(ps[:npos])
    for k in n.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'two values for %s' % k.arg
        if k.arg not in ps and k.arg not in [x.arg for x in a.kwonlyargs] \
                and not a.kwarg:
            return 'no parameter %s' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        for p, d in zip(ps, defaults):
            if d is None and p not in given:
                return 'no value for %s' % p
    return None


def resolution(ctx):
    r1 = 'iface.name'
    ctx.rule(r1, 'Every name that is read is bound.')
    r2 = 'iface.unbound'
    ctx.rule(r2, 'No local name is read before it is '
        'assigned.')
    r3 = 'iface.use'
    ctx.rule(r3, 'Every attribute, function and method that is '
        'used exists, and the arguments of a call fit its parameters.')
    for m in sorted(ctx.ix.modules.values(), key=lambda m: m.name):
        missing = names(ctx, m)
        for n, w in missing:
            ctx.violation(r1, '%s.%s' % (m.name.split('.')[-1], w),
                'name %s is not defined' % n.id, 'src/%s:%d' % (m.relpath,
                n.lineno))
        if not missing:
            ctx.ok(r1, m.name)
        # Imports of the repository's own modules and their names.
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module and (
                    n.module.split('.')[0] == 'cgpm' or n.level):
                base = ctx.ix.abs_module(m, n.module, n.level)
                for a in n.names:
                    mod = ctx.ix.modules.get(base)
                    ok = base + '.' + a.name in ctx.ix.modules or mod and (
                        a.name in bound(mod.tree) or a.name == '*')
                    ctx.check(bool(ok), r3, '%s: import %s' % (
                        m.name.split('.')[-1], a.name), '%s has no %s' % (
                        base, a.name), 'src/%s:%d' % (m.relpath, n.lineno))
    for f in ctx.ix.all_funcs():
        for n in [f.node] + [x for x in ast.walk(f.node) if isinstance(x,
                ast.FunctionDef) and x is not f.node]:
            u = Unbound(n)
            ctx.check(not u.out, r2, f.short, 'local names may be read '
                'before they are assigned: %s' % ', '.join(sorted({x.id
                for x in u.out})), f.where(u.out[0]) if u.out else '')
    T = Typing(ctx)
    bodies = []
    for _ in range(4):
        seen = {}
        bodies = []
        for f in ctx.ix.all_funcs():
            b = Body(T, f)
            bodies.append((f, b))
            for k, t in b.calls:
                seen.setdefault(k, set()).add(t if isinstance(t, (Inst, Of))
                    else ANY)
        new = {k: next(iter(v)) for k, v in seen.items()
            if len(v) == 1 and None not in v}
        if new == T.params:
            break
        T.params = new
    for f, b in bodies:
        bad = [x for x in b.found if not x[0]]
        for _ok, n, msg in bad:
            ctx.violation(r3, f.short, msg, f.where(n))
        for _ in range(len(b.found) - len(bad)):
            ctx.ok(r3, f.short)


# --------------------------------------------------------------------------
# The common interface.

# name: (collapsed, continuous, conditional, numeric)
KINDS = {
    'bernoulli': (True, False, False, False),
    'beta': (False, True, False, True),
    'categorical': (True, False, False, False),
    'crp': (True, False, False, False),
    'exponential': (True, True, False, True),
    'geometric': (True, False, False, True),
    'lognormal': (True, True, False, True),
    'normal': (True, True, False, True),
    'normal_trunc': (False, True, False, True),
    'poisson': (True, False, False, True),
    'vonmises': (True, True, False, True),
    'random_forest': (False, False, True, False),
    'linear_regression': (True, True, True, True),
    'ordinary_least_squares': (False, True, True, True),
}
FLAGS = ('is_collapsed', 'is_continuous', 'is_conditional', 'is_numeric')
LOOM = {'boolean', 'categorical', 'unbounded_categorical', 'count', 'real',
    'sparse_real', 'text', 'id', 'datetime', 'date'}

FACE = [
    ('incorporate', ['rowid', 'observation'], ['inputs']),
    ('unincorporate', ['rowid'], []),
    ('logpdf', ['rowid', 'targets'], ['constraints', 'inputs']),
    ('simulate', ['rowid', 'targets'], ['constraints', 'inputs', 'N']),
    ('logpdf_score', [], []),
]
STEP = [('transition', [], [])]
TYPED = [
    ('set_hypers', ['hypers'], []), ('get_hypers', [], []),
    ('get_params', [], []), ('get_suffstats', [], []),
    ('get_distargs', [], []), ('transition_params', [], []),
    ('construct_hyper_grids', ['X'], ['n_grid']), ('name', [], []),
] + [(f, [], []) for f in FLAGS]
BUILD = ['outputs', 'inputs', 'hypers', 'params', 'distargs', 'rng']

CONFIG = '''
import importlib
from cgpm.utils.config import cctype_class_lookup, cctype_loom_lookup

def find(cctype):
    if not cctype:
        raise ValueError()
    module, name = cctype_class_lookup[cctype]
    return getattr(importlib.import_module(module), name)

def valid(dist):
    return dist in cctype_class_lookup

def everything():
    return cctype_class_lookup.keys()

def everything_list():
    return list(cctype_class_lookup)

def stored(cctype, distargs):
    if cctype == 'categorical' and distargs['k'] > 256:
        cctype = 'crp'
    if cctype not in cctype_loom_lookup:
        raise ValueError()
    return cctype_loom_lookup[cctype]

def stored_caught(cctype, distargs):
    if cctype == 'categorical' and distargs['k'] > 256:
        cctype = 'crp'
    try:
        return cctype_loom_lookup[cctype]
    except KeyError:
        raise ValueError()

def dim_is_collapsed(self):
    return self.model.is_collapsed()

def dim_is_collapsed_aux(self):
    return self.aux_model.is_collapsed()

def dim_is_continuous(self):
    return self.model.is_continuous()

def dim_is_continuous_aux(self):
    return self.aux_model.is_continuous()

def dim_is_conditional(self):
    return self.model.is_conditional()

def dim_is_conditional_aux(self):
    return self.aux_model.is_conditional()

def dim_is_numeric(self):
    return self.model.is_numeric()

def dim_is_numeric_aux(self):
    return self.aux_model.is_numeric()

def dim_name(self):
    return self.model.name()

def dim_name_aux(self):
    return self.aux_model.name()

'''


def accepts(f, need, may, skip):
    """Why a method cannot be called as the interface declares, or None."""
    ps, ds = f.params[skip:], f.defaults[skip:]
    a = f.node.args
    if a.vararg and a.kwarg and not ps:
        return None
    want = need + may
    if ps[:len(want)] != want and not (a.kwarg and not ps and not need):
        return 'takes (%s) where the interface declares (%s)' % (
            ', '.join(ps), ', '.join(want))
    for p, d in list(zip(ps, ds))[len(need):]:
        if d is None:
            return 'does not make %s optional' % p
    if may:
        for p, d in list(zip(ps, ds))[len(need):len(want)]:
            if p != 'n_grid' and not (isinstance(d, ast.Constant)
                    and d.value is None):
                return 'takes a default for %s other than None' % p
    return None


def skips(f):
    return 0 if f.is_static else 1


def standing(ctx):
    r1 = 'iface.signature'
    ctx.rule(r1, 'Every model can be called as the '
        'interface declares: same parameters, same order, same optional '
        'ones.')
    r2 = 'iface.kind'
    ctx.rule(r2, 'A statistical type is found under its name, '
        'reports that name and declares the right kind.')
    base = ctx.ix.cls('cgpm.cgpm.CGpm')
    prim = ctx.ix.cls('cgpm.primitives.distribution.DistributionGpm')
    models = ctx.ix.subclasses(base)
    K = Kit(ctx, r2, CONFIG, 'iface.config')
    m = ctx.ix.modules['cgpm.utils.config']
    try:
        table = lit.const(m, 'cctype_class_lookup')
        loom = lit.const(m, 'cctype_loom_lookup')
    except lit.Unknown:
        ctx.violation(r2, 'cctype_class_lookup', 'the registry of '
            'statistical types is not a constant table', 'src/' + m.relpath)
        table, loom = {}, {}
    found = {}
    for name, entry in sorted(table.items()):
        mod, cl = entry if len(entry) == 2 else ('?', '?')
        c = None
        if mod in ctx.ix.modules:
            c = ctx.ix.modules[mod].classes.get(cl)
        ctx.check(isinstance(c, Class), r2, 'registered ' + name,
            '%s is registered as %s.%s, which does not exist' % (name, mod,
            cl), 'src/' + m.relpath)
        if isinstance(c, Class):
            found[name] = c
    for name in sorted(loom):
        ctx.check(name in table and loom[name] in LOOM, r2, 'exchanged '
            + name, '%s is exchanged as %s' % (name, loom[name]),
            'src/' + m.relpath)
    for name in sorted(KINDS):
        if name not in found:
            if name == 'ordinary_least_squares':
                c = ctx.ix.cls('cgpm.regressions.ols.OrdinaryLeastSquares')
                found[name] = c
            else:
                ctx.violation(r2, 'registered ' + name, 'no model is '
                    'registered as %s' % name, 'src/' + m.relpath)
    for c in models:
        if c is base or c is prim:
            faces = FACE + STEP + (TYPED if c is prim else [])
        else:
            faces = list(FACE)
            if c in found.values():
                faces += TYPED
            f = c.lookup('transition')
            if f is not None and not raises(f):
                faces += STEP
        for name, need, may in faces:
            f = c.lookup(name)
            if f is None:
                if name == 'construct_hyper_grids' and c.name == \
                        'OrdinaryLeastSquares':
                    continue
                ctx.violation(r1, '%s.%s' % (c.name, name),
                    'the model has no %s' % name, c.name)
                continue
            if c in found.values() and name in dict((x[0], 1) for x in
                    TYPED + FACE) and raises(f):
                ctx.violation(r1, '%s.%s' % (c.name, name),
                    'the model does not implement %s' % name, f.where())
                continue
            bad = accepts(f, need, may, skips(f))
            ctx.check(bad is None, r1, '%s.%s' % (c.name, name), bad,
                f.where())
    for name, c in sorted(found.items()):
        f = c.lookup('__init__')
        ps = dict(zip(f.params, f.defaults))
        lack = [p for p in BUILD if p not in ps]
        must = [p for p in f.params[1:] if ps[p] is None and p not in BUILD]
        ctx.check(not lack and not must, r1, c.name + '.__init__',
            'the constructor does not take %s' % ', '.join(lack + must),
            f.where())
        static = [x for x in ('construct_hyper_grids', 'name') + FLAGS
            if c.lookup(x) is not None and not c.lookup(x).is_static
            and not c.lookup(x).is_classmethod]
        ctx.check(not static, r1, c.name, '%s cannot be called on the class'
            % ', '.join(static), f.where())
        f = c.lookup('name')
        s = ctx.summ(f, c)
        ctx.check(s.result is const(name), r2, c.name + '.name',
            'the model registered as %s reports another name' % name,
            f.where())
        if name not in KINDS:
            continue
        for flag, want in zip(FLAGS, KINDS[name]):
            f = c.lookup(flag)
            s = ctx.summ(f, c)
            ctx.check(s.result is (TRUE if want else FALSE), r2,
                '%s.%s' % (c.name, flag), '%s should be %s for %s' % (flag,
                want, name), f.where())
    for flag in FLAGS + ('name',):
        K.one('mixtures.dim.Dim.' + flag, ['dim_' + flag, 'dim_%s_aux'
            % flag], 'what its models report', stop=(flag,),
            open=('is_collapsed', 'is_conditional'))
    K.fun('utils.config.cctype_class', 'find', 'the model registered under '
        'a name')
    K.fun('utils.config.valid_cctype', 'valid', 'whether a name is '
        'registered')
    K.fun('utils.config.all_cctypes', ['everything', 'everything_list'],
        'the registered names')
    K.fun('utils.config.loom_stattype', ['stored', 'stored_caught'],
        'the type a column is exchanged as')


def run(ctx):
    resolution(ctx)
    standing(ctx)
