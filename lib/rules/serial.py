"""C07: a model rebuilt from its metadata is the model that wrote it."""
import ast

from effects import *       # noqa
from effects import Effects
from front import Class
from q import calls
from refspec import Ref, positional
from rules import purity
from rules.mixture import keep
from terms import *         # noqa
from typeinfo import METHOD_TYPES
import core

SELF = mk('param', 'self')
HARNESS = '''
import numpy as np
from collections import OrderedDict
import itertools
import importlib
import cPickle as pickle
from cgpm.crosscat.state import State
from cgpm.crosscat.engine import Engine
from cgpm.mixtures.view import View
from cgpm.utils.general import gen_rng

def again(self, rng):
    return self.from_metadata(self.to_metadata(), rng=rng)

def meta(self):
    return self.to_metadata()

def pickled(self, fileptr):
    pickle.dump(self.to_metadata(), fileptr)

def unpickled_state(self, fileptr, rng=None):
    if isinstance(fileptr, str):
        with open(fileptr, 'r') as f:
            metadata = pickle.load(f)
    else:
        metadata = pickle.load(fileptr)
    return State.from_metadata(metadata, rng=rng)

def unpickled_engine(self, fileptr, rng=None):
    if isinstance(fileptr, str):
        with open(fileptr, 'r') as f:
            metadata = pickle.load(f)
    else:
        metadata = pickle.load(fileptr)
    return Engine.from_metadata(metadata, rng=rng)

def again_view(self, rng):
    return View.from_metadata(self.to_metadata(), rng)

def view(self, rng):
    dims = [self.dims[c] for c in self.outputs[1:]]
    Zr = self.crp.clusters[0].data
    return View(self.X, outputs=self.outputs, inputs=None,
        alpha=self.crp.hypers['alpha'], cctypes=[d.cctype for d in dims],
        distargs=[d.distargs for d in dims], hypers=[d.hypers for d in dims],
        Zr=[Zr[i] for i in sorted(Zr)],
        rng=gen_rng(0) if rng is None else rng)

def again_state(self, rng):
    return State.from_metadata(self.to_metadata(), rng)

def state(self, rng):
    entropy = gen_rng(0) if rng is None else rng
    Zv = self.crp.clusters[0].data
    dims = [self.views[Zv[c]].dims[c] for c in self.outputs]
    rows = lambda view: view.crp.clusters[0].data
    restored = State(np.asarray(self.X.values()).T, outputs=self.outputs,
        cctypes=[d.cctype for d in dims], distargs=[d.distargs for d in dims],
        alpha=self.crp.hypers['alpha'], Zv=Zv,
        Zrv={v: [rows(self.views[v])[i] for i in sorted(rows(self.views[v]))]
            for v in self.views},
        view_alphas={v: self.views[v].crp.hypers['alpha']
            for v in self.views},
        hypers=[d.hypers for d in dims], Cd=self.Cd, Ci=self.Ci,
        diagnostics=self.diagnostics, loom_path=self._loom_path, rng=entropy)
    for token in self.hooked_cgpms:
        m = self.hooked_cgpms[token].to_metadata()
        builder = getattr(importlib.import_module(m['factory'][0]),
            m['factory'][1])
        restored.hooked_cgpms[token] = builder.from_metadata(m, rng=entropy)
    if restored.hooked_cgpms:
        restored.token_generator = itertools.count(
            start=max(restored.hooked_cgpms) + 1)
        restored._update_is_composite()
    return restored

def again_engine(self, rng, multiprocess):
    return Engine.from_metadata(self.to_metadata(), rng, multiprocess)

def engine(self, rng, multiprocess):
    X = np.asarray(self.states[0].X.values()).T
    e = Engine(X=X, num_states=0, rng=gen_rng(0) if rng is None else rng,
        multiprocess=multiprocess)
    e.states = [State.from_metadata(dict(s.to_metadata(), X=X),
        rng=gen_rng(seed)) for s, seed in zip(self.states,
            e._get_seeds(len(self.states)))]
    return e
'''
# Structured models, whose constructors are judged against a definition (C15).
STRUCTURED = ('State', 'View', 'Engine')
# Generators are not part of the metadata; each restored model is given one.
ENTROPY = {'rng', 'ripl'}
COPIES = {'list', 'dict', 'tuple', 'copy.copy', 'copy.deepcopy',
    'collections.OrderedDict', 'OrderedDict', 'numpy.asarray', 'numpy.array',
    'set', 'sorted'}
# Dicts of named settings.
NAMED = {'hypers', 'params', 'distargs', 'hyper_grids'}
DEEP = {'copy.deepcopy'}


def fname(t):
    return t.a[0].a[0] if t.op == 'call' and t.a[0].op == 'glob' else None


def mcall(t):
    """(receiver, name) of a method call."""
    if t.op == 'call' and t.a[0].op == 'attr':
        return t.a[0].a[0], t.a[0].a[1].split('@')[0]
    return None, None


def flat(t):
    """A dict built step by step, as one display, or None."""
    if t.op == 'dict':
        return list(t.a)
    if t.op == 'mut' and t.a[1] == 'setitem':
        return flat(mk('setitem', t.a[0], *t.a[2]))
    if t.op in ('setitem', 'delitem'):
        b = flat(t.a[0])
        if b is None or not is_const(t.a[1]):
            return None
        b = [(k, v) for k, v in b if k is not t.a[1]]
        return b + [(t.a[1], t.a[2])] if t.op == 'setitem' else b
    if fname(t) in ('dict', 'copy.copy', 'copy.deepcopy') and \
            len(t.a[1]) == 1:
        b = flat(t.a[1][0])
        if b is None:
            return None
        for k, v in t.a[2]:
            if k == '**':
                return None
            b = [(i, x) for i, x in b if i is not const(k)]
            b.append((const(k), v))
        return b
    return None


def resolve(y):
    """A node over displays: a dict built step by step is one display, and
    lookups in it are its values."""
    f = flat(y)
    if f is not None:
        y = mk('dict', *sorted(f, key=lambda kv: str(kv[0])))
    if y.op == 'item' and y.a[0].op == 'dict':
        for k, v in y.a[0].a:
            if k is y.a[1]:
                y = v
                break
    elif y.op == 'in' and y.a[1].op == 'dict' and is_const(y.a[0]) and \
            all(is_const(k) for k, _ in y.a[1].a):
        y = TRUE if any(k is y.a[0] for k, _ in y.a[1].a) else FALSE
    elif y.op == 'ite':
        y = ite(*y.a)
    elif y.op in ('is', 'eq') and NONE in y.a:
        o = y.a[0] if y.a[1] is NONE else y.a[1]
        if o.op in ('dict', 'list', 'comp', 'new', 'attr', 'num',
                'tuple') or o.op == 'call' or o.op == 'elem' and \
                o.a[0].op == 'attr' and o.a[0].a[1] in ('data', 'dims',
                    'views', 'X', 'outputs'):
            y = FALSE
    return y


def simplify(t):
    """t with dicts as displays and lookups in them resolved."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ('const', 'num'):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'poly':
            memo[x] = subst(x, {b: go(b) for m, _ in x.a[0] for b, _e in m})
            return memo[x]
        y = resolve(rebuild(x.op, go(x.a)))
        memo[x] = y
        return y
    return go(t)


def plain(record, copies=COPIES):
    """A rewrite that forgets copies and changes of representation.  The
    fields of a record are those of the object its fields are taken from."""
    def rw(t):
        f = fname(t)
        if f in copies and len(t.a[1]) == 1 and not t.a[2]:
            x = t.a[1][0]
            if f.split('.')[-1] in ('dict', 'OrderedDict') and \
                    x.op == 'comp' and x.a[0] in ('list', 'gen') and \
                    x.a[1].op == 'tuple' and len(x.a[1].a) == 2:
                return mk('comp', 'dict', *x.a[1:])
            return x
        if f == 'int' and len(t.a[1]) == 1:
            return t.a[1][0]
        if f in ('cPickle.loads', 'pickle.loads', 'base64.b64decode'):
            x = t.a[1][0]
            inv = f.replace('loads', 'dumps').replace('b64decode',
                'b64encode')
            if fname(x) == inv:
                return x.a[1][0]
        r, n = mcall(t)
        if n in ('tolist', 'items', 'iteritems', 'copy') and not t.a[1]:
            if n in ('items', 'iteritems') and r.op == 'comp' and \
                    r.a[0] == 'dict':
                return mk('comp', 'list', *r.a[1:])
            return r
        if t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][1]:
            src, v = t.a[2][0][0], t.a[1]
            if t.a[0] == 'dict' and v.op == 'tuple' and len(v.a) == 2:
                k, x = v.a
                if fname(k) == 'int':
                    k = k.a[1][0]
                if k.op == 'elem' and k.a[0] is src and x.op == 'item' and \
                        x.a[0] is src and x.a[1] is k:
                    return src
            if t.a[0] in ('list', 'gen') and v.op == 'elem' and \
                    v.a[0] is src:
                return src
        if t.op == 'comp' and t.a[0] == 'gen':
            return mk('comp', 'list', *t.a[1:])
        if t.op == 'loopval' and isinstance(t.a[3], T) and t.a[3].op == \
                'comp' and t.a[3].a[0] == 'dict' and len(t.a[3].a[2]) == 1 \
                and not t.a[3].a[2][0][1] and t.a[3].a[1].a[0] is mk('elem',
                    t.a[3].a[2][0][0], 0):
            return mk('loopval', *(t.a[:3] + (t.a[3].a[2][0][0],) + t.a[4:]))
        if t.op == 'comp' and t.a[1].op == 'turn' and len(t.a[2]) == 1 and \
                not t.a[2][0][1]:
            d = t.a[2][0][0]
            if d.op == 'comp' and d.a[0] == 'dict' and len(d.a[2]) == 1 and \
                    not d.a[2][0][1] and d.a[1].a[0] is mk('elem',
                    d.a[2][0][0], 0):
                return mk('comp', t.a[0], t.a[1], ((d.a[2][0][0], ()),))
        # A dict by comprehension: its keys, its values, its items.
        if t.op in ('elem', 'item', 'idx') and t.a[0].op == 'comp' and \
                len(t.a[0].a[2]) == 1 and not t.a[0].a[2][0][1]:
            kind, v, ((src, _),) = t.a[0].a
            if t.op == 'idx':
                return mk('idx', src, *t.a[1:])
            if kind == 'dict' and v.op == 'tuple' and len(v.a) == 2 and \
                    v.a[0] is mk('elem', src, 0):
                if t.op == 'elem':
                    return mk('elem', src, t.a[1])
                if t.a[1].op == 'elem' and t.a[1].a[0] is src:
                    return subst(v.a[1], {v.a[0]: t.a[1]})
        if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in record \
                and len(t.a[1]) + len(t.a[2]) == len(record[t.a[0].a[0]]):
            names = record[t.a[0].a[0]]
            vals = dict(zip(names, t.a[1]))
            vals.update(dict(t.a[2]))
            bases = {v.a[0] if v.op == 'attr' and v.a[1] == k else None
                for k, v in vals.items()}
            if len(bases) == 1 and None not in bases:
                return bases.pop()
        return None
    return rw


def records(ctx):
    """Names of namedtuple types, with their fields."""
    out = {}
    for m in ctx.ix.modules.values():
        for k, n in m.consts.items():
            if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[
                    -1] == 'namedtuple' and len(n.args) == 2 and \
                    isinstance(n.args[1], (ast.List, ast.Tuple)):
                out[m.name + '.' + k] = [e.value for e in n.args[1].elts]
    return out


class Serial(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.ref = Ref(ctx, HARNESS, 'serial')
        self.rec = records(ctx)
        self.E = Effects(ctx, self.inline, rewrite=None)
        self.rw = plain(self.rec)
        self.muts = mutated(ctx)

    def inline(self, f, recv, an):
        return f.name not in ('joint_parameters', 'get_suffstats') and \
            core.default_inline(f, recv, an)

    def summ(self, f, cls, args=None):
        return self.E.summ(f, cls, args)

    def norm(self, t):
        t = simplify(t)
        for _ in range(4):
            u = simplify(Canon(rewrite=self.rw)(t))
            if u is t:
                break
            t = u
        return decide(t)

    def classes(self):
        for c in self.ctx.ix.all_classes():
            if 'to_metadata' in c.methods and c.name != 'CGpm':
                yield c


def typ(ctx, t, cls):
    """Class of a term in a method of cls, ('of', class, kind), or None."""
    if t is SELF:
        return cls
    if t.op == 'new':
        return ctx.ix.resolve_dotted(t.a[0]) if isinstance(t.a[0], str) \
            else None
    if t.op == 'attr':
        c = typ(ctx, t.a[0], cls)
        return ctx.types.attr(c, t.a[1]) if isinstance(c, Class) else None
    if t.op in ('item', 'elem', 'unpack', 'popped'):
        c = typ(ctx, t.a[0], cls)
        return c[1] if isinstance(c, tuple) else None
    if t.op in ('mut', 'setitem', 'delitem', 'setattr'):
        return typ(ctx, t.a[0], cls)
    if t.op == 'phi' and isinstance(t.a[2], T):
        return typ(ctx, t.a[2], cls)
    if t.op == 'call':
        r, n = mcall(t)
        c = typ(ctx, r, cls) if r is not None else None
        if isinstance(c, tuple) and n in ('values', 'itervalues'):
            return c
        if isinstance(c, tuple) and n == 'get':
            return c[1]
        if isinstance(c, Class) and n:
            for k in c.mro():
                q = METHOD_TYPES.get((k.name, n))
                if q:
                    return ctx.ix.resolve_dotted(q)
    return None


def mutated(ctx):
    """{attribute: [(depth, class or None, event)]} changed in place."""
    out = {}
    fs = []
    for c in ctx.ix.all_classes():
        fs += [(f, c) for f in c.methods.values()]
    for m in ctx.ix.modules.values():
        if m.name.split('.')[-1] not in ('test', 'plots', 'render') and \
                not m.name.startswith('spec_'):
            fs += [(f, None) for f in m.functions.values()]
    # Helpers are read where they are called.
    called = set()
    for m in ctx.ix.modules.values():
        if not m.name.startswith('spec_'):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    called.add(n.func.id if isinstance(n.func, ast.Name) else
                        getattr(n.func, 'attr', None))

    def inline(f, recv, an):
        return f.cls is None and core.default_inline(f, recv, an) or \
            purity.modular(f, recv, an)
    for f, c in fs:
        s = ctx.summ(f, c, inline=inline)
        for e in s.events:
            t = None
            if e.kind == 'write':
                t = e.loc
                if e.op == '=':
                    t = t.a[0] if t.op == 'item' else None
            elif e.kind == 'call' and e.recv is not None and not e.inlined \
                    and mname_(e) in MUTATES:
                t = e.recv
            if t is None:
                continue
            a, d, base = anchor(t)
            if a is not None:
                k = typ(ctx, base, c)
                ks = [k] if isinstance(k, Class) else like(ctx, f, base)
                if c is None and f.name in called and root(t).op == 'param':
                    continue
                for k in ks:
                    out.setdefault(a, []).append((d, k, e))
    return out


def root(t):
    while t.op in ('attr', 'item', 'elem', 'unpack', 'popped', 'slice', 'mut',
            'setitem', 'delitem', 'setattr'):
        t = t.a[0]
    return t


def like(ctx, f, t):
    """Classes a parameter of f may belong to, by what f uses of it."""
    if t.op in ('item', 'elem') and t.a[0].op == 'attr':
        ks = [ctx.types.attr(c, t.a[0].a[1]) for c in ctx.ix.all_classes()]
        return [k[1] for k in ks if isinstance(k, tuple)] or [None]
    if t.op != 'param':
        return [None]
    used = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)
        and isinstance(n.value, ast.Name) and n.value.id == t.a[0]}
    out = []
    for c in ctx.ix.all_classes():
        has = set()
        for k in c.mro():
            has |= set(k.methods)
            for g in k.methods.values():
                has |= {n.attr for n in ast.walk(g.node) if isinstance(n,
                    ast.Attribute) and isinstance(n.value, ast.Name) and
                    n.value.id == 'self' and isinstance(n.ctx, ast.Store)}
        if used <= has:
            out.append(c)
    return out or [None]


def changed(S, a, depth, cls):
    """An event that changes attribute a of cls in place at depth or below,
    or None."""
    for d, k, e in sorted(S.muts.get(a, []), key=lambda x: (x[0],
            x[2].at())):
        if d >= depth and (k is None or not isinstance(cls, Class) or
                k in cls.mro() or cls in k.mro()):
            return e
    return None


MUTATES = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear',
    'update', 'setdefault', 'add', 'discard', 'sort', 'reverse'}


def mname_(e):
    return (e.name or '').split('@')[0]


def anchor(t):
    """(last attribute, number of steps below it, its object) of a location."""
    d = 0
    while True:
        if t.op in ('item', 'elem', 'unpack', 'popped', 'slice'):
            d += 1
            t = t.a[0]
        elif t.op in ('mut', 'setitem', 'delitem'):
            t = t.a[0]
        elif t.op == 'phi' and isinstance(t.a[2], T):
            t = t.a[2]
        elif t.op == 'call' and mcall(t)[1] in ('values', 'itervalues',
                'get', 'setdefault'):
            d += 1
            t = mcall(t)[0]
        elif t.op == 'attr':
            return t.a[1], d, t.a[0]
        else:
            return None, d, None


def leaves(t, s=0, seen=None):
    """(located object, shallow levels) shared with the value t."""
    if t.op in ('attr', 'item', 'elem', 'unpack'):
        yield t, s
    elif t.op == 'dict':
        for _k, v in t.a:
            for x in leaves(v, s):
                yield x
    elif t.op in ('list', 'tuple'):
        for v in t.a:
            for x in leaves(v, s):
                yield x
    elif t.op == 'setitem':
        for x in leaves(t.a[0], s):
            yield x
        for x in leaves(t.a[2], s):
            yield x
    elif t.op in ('ite', 'orelse'):
        for v in t.a[1 if t.op == 'ite' else 0:]:
            for x in leaves(v, s):
                yield x
    elif t.op == 'concat':
        for v in t.a:
            for x in leaves(v, s):
                yield x
    elif t.op == 'comp':
        v = t.a[1]
        if t.a[0] == 'dict' and v.op == 'tuple':
            v = v.a[-1]
        for x in leaves(v, s):
            yield x
    elif t.op == 'loopval':
        for v in (t.a[1],) + tuple(t.a[2]):
            for x in leaves(v, s):
                yield x
    elif t.op == 'call':
        f = fname(t)
        r, n = mcall(t)
        if f in DEEP:
            return
        if f in COPIES and f not in ('numpy.asarray',) and t.a[1]:
            for x in leaves(t.a[1][0], s + 1):
                yield x
        elif f == 'collections.defaultdict' and len(t.a[1]) == 2:
            for x in leaves(t.a[1][1], s + 1):
                yield x
        elif f == 'numpy.asarray' and t.a[1]:
            for x in leaves(t.a[1][0], s):
                yield x
        elif n in ('items', 'iteritems', 'values', 'copy') and not t.a[1]:
            for x in leaves(r, s + 1):
                yield x
        elif t.a[0].op == 'glob' and t.a[0].a[0].split('.')[-1] == 'Data':
            for v in list(t.a[1]) + [v for _k, v in t.a[2]]:
                for x in leaves(v, s):
                    yield x


def built(cls, t):
    """(class, bindings) of a constructor call of cls."""
    if t.op == 'new':
        args, kw = t.a[1], t.a[2]
    elif t.op == 'call' and t.a[0] in (mk('param', 'self'), mk('param',
            'cls')):
        args, kw = t.a[1], t.a[2]
    else:
        return None
    names = positional(cls.lookup('__init__'), 1)
    out = dict(zip(names, args))
    out.update(dict(kw))
    return out


def under_new(t):
    while t.op in ('loopval', 'mut', 'setattr'):
        t = t.a[1] if t.op == 'loopval' else t.a[0]
    return t


def fields(s, base):
    return {k.a[1]: v for k, v in s.end.heap.items()
        if k.op == 'attr' and k.a[0] is base}


def identity(S, cls):
    """Every attribute of a restored model is that of the original."""
    ctx = S.ctx
    init = cls.lookup('__init__')
    names = positional(init, 1)
    s0 = S.summ(init, cls)
    I = fields(s0, SELF)
    # Attributes assigned after construction.
    late, read = set(), set()
    for k in cls.mro():
        for f in k.methods.values():
            fresh = set()
            for st in f.node.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.value,
                            ast.Name) and n.value.id == 'self':
                        if isinstance(n.ctx, ast.Load):
                            if n.attr not in fresh:
                                read.add(n.attr)
                        elif f.name != '__init__':
                            late.add(n.attr)
                if isinstance(st, ast.Assign):
                    fresh |= {n.attr for x in st.targets for n in
                        ast.walk(x) if isinstance(n, ast.Attribute) and
                        isinstance(n.ctx, ast.Store)}
    s = S.summ(S.ref.fn('again'), cls)
    new = under_new(s.result)
    B = built(cls, new)
    if not ctx.check(B is not None, 'C07.identity', cls.name,
            'from_metadata does not return a new %s' % cls.name,
            cls.lookup('from_metadata').where()):
        return
    R = fields(s, new)
    bind = {n: S.norm(simplify(B[n])) for n in names if n in B}
    raw = {n: simplify(B[n]) for n in names if n in B}
    for n, d in defaults(init).items():
        raw.setdefault(n, d)
    s1 = S.summ(init, cls, raw)
    J = fields(s1, SELF)
    if init.node.args.kwarg:
        more = mk('param', '*' + init.node.args.kwarg.arg)
        extra = mk('dict', *sorted(((const(k), v) for k, v in B.items()
            if k not in names), key=str))
        J = {k: subst(v, {more: extra}) for k, v in J.items()}
    env = {}
    for a, v in I.items():
        if a not in late and a not in ENTROPY and known(v):
            env[S.norm(v)] = mk('attr', SELF, a)
    for a in sorted(I):
        if a in ENTROPY or a not in read:
            continue
        got = S.norm(R[a] if a in R else J.get(a, mk('attr', SELF, a)))
        want = [mk('attr', SELF, a)]
        if a not in late:
            w = S.norm(I[a])
            for _ in range(3):
                w = S.norm(subst(w, env))
            want.append(w)
        got = S.norm(got)
        ok = any(got is w or got is S.norm(w) for w in want) or \
            recomputed(S, cls, a, got)
        ctx.check(ok, 'C07.identity', '%s.%s' % (cls.name, a),
            'a restored model has %s, expected %s' % (
                brief(got, 160), brief(want[-1], 160)),
            cls.lookup('from_metadata').where())


def recomputed(S, cls, a, got):
    """a is always set to the result of the same method of the model."""
    def meth(t):
        if t.op == 'unpack' or t.op == 'item' and t.a[1].op == 'num':
            return meth(t.a[0])
        if t.op == 'call' and (mcall(t)[1] or t.a[0].op == 'bound'):
            return (mcall(t)[1] or t.a[0].a[0]), tuple(t.a[1])
        return None
    m = meth(got)
    if m is None:
        return False
    for f in cls.methods.values():
        s = S.summ(f, cls)
        for e in s.events:
            if e.kind == 'write' and e.op == '=' and e.loc is mk('attr',
                    SELF, a):
                if not isinstance(e.value, T) or meth(e.value) != m:
                    return False
    return True


def known(v):
    """Expressions of parameters worth naming."""
    return v.op in ('param', 'item', 'attr') or v.op == 'ite'


def defaults(f):
    a = f.node.args
    out = {}
    for p, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            out[p.arg] = const(d.value)
    return out


def detached(S, cls):
    """Neither the metadata nor a restored model shares what is changed in
    place."""
    ctx = S.ctx
    s = S.summ(S.ref.fn('meta'), cls)
    bad = []
    for loc, lv in leaves(simplify(s.result)):
        a, d, base = anchor(loc)
        e = changed(S, a, d + lv, typ(ctx, base, cls)) if a else None
        if e is not None:
            bad.append((loc, e))
    ctx.check(not bad, 'C07.snapshot', cls.name,
        'the metadata shares %s' % '; '.join('%s, changed in place at %s' % (
            show(l, limit=80), e.at()) for l, e in bad[:3]),
        cls.lookup('to_metadata').where())
    f = cls.lookup('from_metadata')
    s = S.summ(f, cls)
    new = under_new(s.result) if s.result is not None else None
    B = built(cls, new) if new is not None else None
    if B is None:
        return
    bad = []
    init = cls.lookup('__init__')
    names = positional(init, 1)
    s1 = S.summ(init, cls, {n: B[n] for n in names if n in B})
    J = fields(s1, SELF)
    J.update(fields(s, new))
    M = mk('param', '#0')
    for a, v in sorted(J.items()):
        for loc, lv in leaves(v):
            if not contains(loc, M) or loc is M:
                continue
            e = changed(S, a, lv, cls)
            if e is not None:
                bad.append((a, loc, e))
    ctx.check(not bad, 'C07.restored', cls.name,
        'a restored model shares %s with the metadata' % '; '.join(
            '%s (%s), changed in place at %s' % (a, show(l, limit=60),
                e.at()) for a, l, e in bad[:3]), f.where())


def factory(S, cls):
    ctx = S.ctx
    s = S.summ(S.ref.fn('meta'), cls)
    t = flat(simplify(s.result)) or []
    v = dict((k, x) for k, x in t).get(const('factory'))
    want = mk('tuple', const(cls.module.name), const(cls.name))
    ok = v is want
    if v is not None and not ok and v.op in ('tuple', 'list') and \
            len(v.a) == 2 and all(is_const(x) for x in v.a):
        c = ctx.ix.resolve_dotted('%s.%s' % tuple(x.a[1] for x in v.a))
        ok = c is cls
    ctx.check(ok, 'C07.factory', cls.name, 'the metadata names %s as its '
        'builder' % (brief(v, 100) if v is not None else 'nothing'),
        cls.lookup('to_metadata').where())


def keyed(S, t, cls):
    """Dicts in metadata whose keys are not fixed strings."""
    if t.op == 'dict':
        for k, v in t.a:
            if not is_const(k) or not isinstance(k.a[1] if len(k.a) > 1 else
                    k.a[0], str):
                yield t
                return
        for k, v in t.a:
            for x in keyed(S, v, cls):
                yield x
    elif t.op in ('list', 'tuple', 'concat'):
        for v in t.a:
            for x in keyed(S, v, cls):
                yield x
    elif t.op == 'ite':
        for v in t.a[1:]:
            for x in keyed(S, v, cls):
                yield x
    elif t.op == 'setitem':
        if not is_const(t.a[1]):
            yield t
        for v in (t.a[0], t.a[2]):
            for x in keyed(S, v, cls):
                yield x
    elif t.op == 'comp':
        if t.a[0] == 'dict':
            yield t
        else:
            for x in keyed(S, t.a[1], cls):
                yield x
    elif t.op == 'call':
        r, n = mcall(t)
        x = r if n == 'copy' else t.a[1][0] if fname(t) in COPIES and \
            len(t.a[1]) == 1 else None
        if x is not None and any(keyed(S, x, cls)) and fname(t) not in (
                'list', 'sorted', 'tuple', 'set'):
            yield t
    elif t.op in ('attr', 'item'):
        a, d, base = anchor(t)
        if a in NAMED:
            return
        c = typ(S.ctx, base, cls) if a else None
        for dm, k, e in S.muts.get(a, []):
            if dm == d and e.op == '=' and not is_const(e.loc.a[1]) and (
                    k is None or not isinstance(c, Class) or k in c.mro()
                    or c in k.mro()):
                yield t
                return


def textual(S, cls):
    """Keys that are strings once the metadata went through JSON are turned
    back into numbers."""
    ctx = S.ctx
    s = S.summ(S.ref.fn('meta'), cls)
    ks = list(keyed(S, simplify(s.result), cls))
    s = S.summ(S.ref.fn('again'), cls)
    out = [s.result] + list(s.end.heap.values())
    ints = [x for t in out for x in subterms(simplify(t))
        if fname(x) == 'int']
    bad = [k for k in ks if not any(contains(x, k) for x in ints)]
    ctx.check(not bad, 'C07.json', cls.name, 'the keys of %s are strings '
        'once written as JSON, and stay strings' % '; '.join(brief(k, 90)
            for k in bad[:3]), cls.lookup('from_metadata').where())


def structured(S):
    """A restored view, state or engine is one built from the content of the
    original."""
    ctx = S.ctx
    once = plain(S.rec, COPIES - {'sorted', 'set'})

    def rw(t):
        u = resolve(t)
        if u is not t:
            return u
        f = fname(t)
        if f == 'sorted' and len(t.a[1]) == 1:
            r, n = mcall(t.a[1][0])
            if n in ('keys', 'iterkeys'):
                return mk('call', t.a[0], (r,), t.a[2])
        if f == 'len' and t.a[1][0].op == 'comp' and t.a[1][0].a[0] != \
                'dict' and len(t.a[1][0].a[2]) == 1 and \
                not t.a[1][0].a[2][0][1]:
            return mk('call', t.a[0], (t.a[1][0].a[2][0][0],), t.a[2])
        return once(t)
    for n, q in (('view', 'mixtures.view.View'),
            ('state', 'crosscat.state.State'),
            ('engine', 'crosscat.engine.Engine')):
        cls = ctx.ix.cls('cgpm.' + q)
        stop = ('from_metadata', 'to_metadata') if n == 'engine' else ()

        def inl(f, r, an, cls=cls, stop=stop):
            return f.name not in ('__init__', 'build_network',
                'get_suffstats', '_get_seeds', '_update_is_composite') and \
                not (f.name in stop and f.cls is not cls) and \
                core.default_inline(f, r, an)
        E = Effects(ctx, inl, rewrite=rw)
        agree(ctx, 'C07.content', S.ref.fn('again_' + n), [n], S.ref,
            'restoring the metadata of a %s' % n, E, cls=cls,
            where=cls.lookup('from_metadata').where(), construct=cls.name)


def stored(S):
    """A file holds the metadata, and reading it restores that."""
    ctx = S.ctx
    for q in ('crosscat.state.State', 'crosscat.engine.Engine'):
        cls = ctx.ix.cls('cgpm.' + q)
        E = Effects(ctx, keep('to_metadata', 'from_metadata'),
            rewrite=lambda t: mk('glob', 'p' + t.a[0][2:]) if t.op == 'glob' and
            t.a[0].startswith('cPickle.') else None)
        for m, r in (('to_pickle', 'pickled'), ('from_pickle', 'unpickled_' +
                cls.name.lower())):
            f = cls.lookup(m)
            if f is not None:
                agree(ctx, 'C07.stored', f, [r], S.ref, 'the file of a '
                    'model', E, cls=cls)


def parts(S):
    """The metadata of a member of an ensemble goes in as the member wrote
    it, but for the data table, which is stored once."""
    cls = S.ctx.ix.cls('cgpm.crosscat.engine.Engine')
    f = cls.lookup('to_metadata')
    bad = []
    # Names a member's metadata may have: what a loop gives, what to_metadata
    # returned, and other names of these.
    members = set()
    while True:
        n0 = len(members)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                members.update(x.id for x in ast.walk(n.target)
                    if isinstance(x, ast.Name))
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and \
                    n is not f.node:
                members.update(x.arg for x in n.args.args)
            elif isinstance(n, ast.Assign) and (
                    isinstance(n.value, ast.Name) and n.value.id in members or
                    isinstance(n.value, ast.Subscript) and
                    not isinstance(n.value.slice, ast.Constant) or
                    isinstance(n.value, ast.Call) and
                    isinstance(n.value.func, ast.Attribute) and
                    n.value.func.attr == 'to_metadata'):
                members.update(x.id for x in n.targets
                    if isinstance(x, ast.Name))
        if len(members) == n0:
            break
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store,
                ast.Del)):
            base, key = n.value, n.slice
            gone = isinstance(n.ctx, ast.Del)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ('pop', 'update', 'setdefault', 'clear',
                    'popitem'):
            base, key = n.func.value, n.args[0] if n.args else None
            gone = n.func.attr == 'pop'
        else:
            continue
        if isinstance(base, ast.Name) and base.id not in members:
            continue
        if not (gone and isinstance(key, ast.Constant) and key.value == 'X'):
            bad.append(n)
    S.ctx.check(not bad, 'C07.parts', 'Engine.to_metadata',
        'changes the metadata of its members: %s' % '; '.join(
            ast.unparse(n) for n in bad), f.where(bad[0]) if bad else
        f.where())


def run(ctx):
    ctx.rule('C07.parts', 'the metadata of an ensemble holds that of each '
        'member as the member wrote it, but for the shared data')
    ctx.rule('C07.identity', 'every attribute of a restored model that is '
        'read has the value it had in the original, by composing '
        'to_metadata, from_metadata and the constructor')
    ctx.rule('C07.snapshot', 'the metadata shares no object with the model '
        'that any code changes in place')
    ctx.rule('C07.restored', 'a restored model shares no object with the '
        'metadata that any code changes in place')
    ctx.rule('C07.content', 'a restored view, state or engine is the '
        'construction its definition in terms of the original names')
    ctx.rule('C07.stored', 'a file holds the metadata of a model, and '
        'reading a file restores the model of its metadata')
    ctx.rule('C07.json', 'dicts of the metadata whose keys are not fixed '
        'strings are restored with their keys converted back')
    ctx.rule('C07.factory', 'the metadata names the class that can read it')
    S = Serial(ctx)
    for cls in S.classes():
        factory(S, cls)
        detached(S, cls)
        textual(S, cls)
        if cls.name not in STRUCTURED:
            identity(S, cls)
    structured(S)
    stored(S)
    parts(S)
