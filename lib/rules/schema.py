"""C28: reading a data schema, dummy coding, and the type registry."""
from refspec import *        # noqa
from canon import Canon, call1, last, strip, decide, simplify_or
from front import AnalysisBroken
import core

REF = '''
import itertools
import os
import re
import importlib
import numpy as np
import pandas as pd

def parse_schema(schema, dataframe):
    frame = dataframe.replace('NA', np.nan)
    D, outputs, cctypes, distargs, valmap, columns = [], [], [], [], {}, []
    for column, stattype, index in schema:
        if stattype == 'ignore':
            continue
        cts, das = parse_distargs([stattype])
        ct = cts[0]
        X = frame[column]
        da = das[0]
        if ct == 'bernoulli' or ct == 'categorical':
            m = build_valmap(X)
            X = X.replace(m)
            valmap[column] = m
            if ct == 'bernoulli':
                assert len(m) == 2
            elif da is None:
                da = {'k': len(m)}
            else:
                assert len(m) <= da['k']
        D.append(X)
        outputs.append(index)
        cctypes.append(ct)
        distargs.append(da)
        columns.append(column)
    return np.asarray(D).T, outputs, cctypes, distargs, valmap, columns

def build_valmap(column):
    u = [x for x in sorted(column.unique()) if not pd.isnull(x)]
    return {x: k for k, x in enumerate(u)}

def _code(i, val, discretes):
    if i not in discretes:
        return [val]
    if val != int(val):
        raise TypeError('')
    k = discretes[i]
    if val < 0 or k <= val:
        raise ValueError('')
    code = [0] * (k - 1)
    if val < k - 1:
        code[int(val)] = 1
    return code

def _code_b(i, val, discretes):
    if i not in discretes:
        return [val]
    if val != int(val):
        raise TypeError('')
    k = discretes[i]
    if val < 0 or k <= val:
        raise ValueError('')
    code = [0] * (k - 1)
    if val != k - 1:
        code[int(val)] = 1
    return code

def _code_c(i, val, discretes):
    if i not in discretes:
        return [val]
    if val != int(val):
        raise TypeError('')
    k = discretes[i]
    if val < 0 or k <= val:
        raise ValueError('')
    return [1 if val == j else 0 for j in range(k - 1)]

def dummy_code_code(x, discretes):
    out = []
    for i, val in enumerate(x):
        out.extend(_code(i, val, discretes))
    return out

def dummy_code_b_code(x, discretes):
    if not discretes:
        return list(x)
    return dummy_code_code(x, discretes)

def dummy_code_code_b(x, discretes):
    out = []
    for i, val in enumerate(x):
        out.extend(_code_b(i, val, discretes))
    return out

def dummy_code_b_code_b(x, discretes):
    if not discretes:
        return list(x)
    return dummy_code_code_b(x, discretes)

def dummy_code_code_c(x, discretes):
    out = []
    for i, val in enumerate(x):
        out.extend(_code_c(i, val, discretes))
    return out

def dummy_code_b_code_c(x, discretes):
    if not discretes:
        return list(x)
    return dummy_code_code_c(x, discretes)

def parse_distargs(dists):
    names, args = [], []
    for s in dists:
        m = re.search('\\\\(.*\\\\)', s)
        if m is None:
            names.append(s)
            args.append(None)
        else:
            d = {}
            for sub in m.group(0).replace('(', '').replace(')', '').split(','):
                d[sub.split('=')[0]] = float(sub.split('=')[1])
            names.append(s[:s.index('(')])
            args.append(d)
    return names, args

def check_env_debug():
    d = os.environ.get('GPMCCDEBUG', None)
    return False if d is None else int(d)
'''
D = 'cgpm.utils.data.'
K = 'cgpm.utils.config.'
P0, P1 = mk('param', '#0'), mk('param', '#1')


def norm(t):
    if t.op == 'unpack' and isinstance(t.a[1], int):
        return mk('item', t.a[0], const(t.a[1]))
    if t.op in ('func', 'glob') and str(t.a[0]).split('.')[-1] in (
            'parse_distargs', 'build_valmap'):
        return mk('helper', str(t.a[0]).split('.')[-1])
    if t.op == 'not' and t.a[0].op == 'eq' and t.a[0].a[0].op == 'num' \
            and t.a[0].a[0] is const(0):
        x = call1(t.a[0].a[1], {'len'})
        if x is not None:
            return x
    if t.op == 'call' and last(t.a[0]) == 'int' and len(t.a[1]) == 1:
        return None
    # d.get(k) is d.get(k, None)
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'get' and \
            len(t.a[1]) == 2 and t.a[1][1] is NONE:
        return mk('call', t.a[0], t.a[1][:1], ())
    if t.op == 'call' and last(t.a[0]) == 'getenv':
        return mk('call', mk('attr', mk('glob', 'os.environ'), 'get'),
            t.a[1][:1] if len(t.a[1]) > 1 and t.a[1][1] is NONE else t.a[1],
            ())
    if t.op == 'or' and len(t.a) == 2 and all(x.op == 'lt' for x in t.a):
        return None
    return None


def push(t):
    """Conditionals inside sequence comprehensions, outermost first."""
    return t


def inl(*keep):
    return lambda f, recv, an: f.name not in keep


def run(ctx):
    ref = Ref(ctx, REF, 'schema')
    fn = lambda n: ctx.ix.fn(n)
    # -- schema
    f = fn(D + 'parse_schema')
    ctx.rule('schema', 'every column not ignored contributes, in schema '
        'order, its data (coded), index, type, arguments and name')
    ctx.rule('schema-pure', 'the caller\'s data frame is not modified')
    keep = inl('parse_distargs', 'build_valmap')
    r, c, s = form(ctx, f, inline=keep, rewrite=norm)
    w, wc, ws = form(ctx, ref.fn('parse_schema'), inline=keep, rewrite=norm)
    part = ['data', 'outputs', 'types', 'type arguments', 'value maps',
        'columns']
    if r.op != 'tuple' or len(r.a) != 6:
        ctx.violation('schema', f.short, 'does not return six parts',
            f.where())
    else:
        for n, x, y in zip(part, r.a, w.a):
            ctx.check(x is y, 'schema', n, '%s: computes %s '
                'instead of %s' % (n, show(x, limit=300), show(y,
                    limit=300)), f.where())
    df = P1
    for e in s.events:
        if e.kind == 'write' and q_root(e.loc) is df:
            ctx.violation('schema-pure', 'write', 'writes %s'
                % show(e.loc, limit=80), f.where())
        if e.kind == 'call' and e.recv is not None and \
                q_root(e.recv) is df and dict(e.kw or ()).get('inplace') \
                is TRUE:
            ctx.violation('schema-pure', e.name, '%s modifies the data '
                'frame it was given' % e.name, f.where())
    ctx.ok('schema-pure', f.short)
    need = {mk('len2'): 'bernoulli'}
    asserts(ctx, f, s, ws)
    ctx.rule('value-map', 'the values of a nominal column, nulls excluded, '
        'are numbered from zero in sorted order')
    same(ctx, 'value-map', fn(D + 'build_valmap'), ['build_valmap'], ref,
        'value map', inline=inl(), rewrite=norm)
    # -- dummy coding
    ctx.rule('dummy-code', 'a discrete value in {0..k-1} becomes k-1 '
        'indicators, all zero for the last; others pass through; '
        'non-integers and values out of range are rejected')
    f = fn(D + 'dummy_code')
    same_dummy(ctx, f, ref)
    # -- type strings
    ctx.rule('type-arguments', 'name(k=v,...) is split into the name and its '
        'numeric arguments, a bare name has none')
    same(ctx, 'type-arguments', fn(K + 'parse_distargs'),
        ['parse_distargs'], ref, 'type strings', inline=inl(), rewrite=split)
    ctx.rule('debug-flag', 'the debug flag is the integer in the '
        'environment, false when unset')
    same(ctx, 'debug-flag', fn(K + 'check_env_debug'), ['check_env_debug'],
        ref, 'debug flag', inline=inl(), rewrite=norm)
    registry(ctx)


def q_root(t):
    while t.op in ('attr', 'item', 'elem', 'slice'):
        t = t.a[0]
    return t


def split(t):
    """A two-way conditional over tuples and comps is distributed."""
    r = norm(t)
    if r is not None:
        return r
    return None


def asserts(ctx, f, s, ws):
    ctx.rule('schema-levels', 'a binary column has two values and a declared '
        'number of categories is not exceeded')
    got = assertion(s)
    want = assertion(ws)
    for w in want:
        ctx.check(w in got, 'schema-levels', show(w, limit=120), 'not '
            'rejected when %s' % show(w, limit=160), f.where())


def assertion(s):
    cn = Canon(rewrite=norm)
    out = set()
    for e in s.events:
        if e.kind == 'raise' and e.value is not None and \
                'Assert' in show(e.value):
            out.add(and_(*[cn(g) for g in e.guard]))
    return out


def same_dummy(ctx, f, ref):
    rule = 'dummy-code'
    r, c, s = form(ctx, f, inline=inl(), rewrite=norm)
    r = accepted(r, c)
    first = None
    for n in ('dummy_code', 'dummy_code_b'):
        for m in ('_code', '_code_b', '_code_c'):
            w, wc, _ = form(ctx, ref.fn(n + m), inline=inl(), rewrite=norm)
            w = accepted(w, wc)
            if r is w and norm_or(c) is norm_or(wc):
                ctx.ok(rule, f.short)
                return
            first = first or (w, wc)
    w, wc = first
    ctx.violation(rule, f.short, 'computes %s rejecting %s; expected %s '
        'rejecting %s' % (show(r, limit=220), show(c, limit=160),
            show(w, limit=220), show(wc, limit=160)), f.where())


def accepted(r, c):
    """The result knowing that no value was rejected."""
    known = {}
    alts = []
    for p in parts(c):
        e = p.a[0] if p.op == 'anyq' else p
        alts.append([k for k in (e.a if e.op == 'and' else (e,)) if
            contains_any(k, lambda t: t.op == 'elem') and k.op != 'in'])
    for _ in alts:
        for ks in alts:
            ks = [k for k in ks if known.get(k) is not TRUE]
            if len(ks) != 1:
                continue
            for x in (ks[0].a if ks[0].op == 'or' else ks):
                known[x] = FALSE
                known[not_(x)] = TRUE
    for k in list(known):
        # A value equal to its integer part is that integer.
        if known[k] is TRUE and k.op == 'eq':
            for x, y in (k.a, k.a[::-1]):
                if call1(y, {'int'}) is x:
                    known[y] = x
    return decide(subst(r, known))


def norm_or(c):
    return Canon(rewrite=norm)(simplify_or(parts(c)))


LOOM = {'bernoulli': 'boolean', 'categorical': 'categorical',
    'crp': 'unbounded_categorical', 'poisson': 'count'}


def registry(ctx):
    ctx.rule('registry', 'every registered type name resolves to the class '
        'of that name')
    m = ctx.ix.modules['cgpm.utils.config']
    tables = {}
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            try:
                tables[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    f = ctx.ix.fn(K + 'cctype_class')
    r, c, s = form(ctx, f, inline=inl(), rewrite=norm)
    tn = [t.a[0].split('.')[-1] for t in subterms(r) if t.op == 'glob' and
        t.a[0].startswith(K)]
    table = tables.get(tn[0]) if tn else None
    if table is None:
        # The table may have been inlined as a literal.
        cand = [v for v in tables.values() if isinstance(v, dict) and v and
            all(isinstance(x, tuple) and len(x) == 2 for x in v.values())]
        if not cand:
            raise AnalysisBroken('no type registry found')
        table = cand[0]
    for k, (mod, cn) in sorted(table.items()):
        c0 = None
        try:
            c0 = ctx.ix.cls('%s.%s' % (mod, cn))
        except Exception:
            pass
        if not ctx.check(c0 is not None, 'registry', k, '%s resolves to '
                '%s.%s, which does not exist' % (k, mod, cn), f.where()):
            continue
        nm = c0.lookup('name')
        if nm is None:
            continue
        v = ctx.summ(nm, c0).result
        ctx.check(v is const(k), 'registry', k + ' name', '%s resolves to '
            '%s, whose name is %s' % (k, cn, show(v)), nm.where())
    looked = [t for t in subterms(r) if t.op == 'item' and t.a[1] is P0]
    ctx.check(bool(looked), 'registry', 'lookup', 'a type is not looked up '
        'by its name: %s' % show(r, limit=120), f.where())
    if looked:
        e = looked[0]
        imp = mk('item', e, const(0))
        cl = mk('item', e, const(1))
        ctx.check(r.op == 'call' and last(r.a[0]) == 'getattr' and
            r.a[1][-1] is cl and contains(r.a[1][0], imp), 'registry',
            'class', 'the class of a type is %s' % show(r, limit=120),
            f.where())
    ctx.check(c in (not_(P0), cmp_('is', P0, NONE)) or any(
        x is not_(P0) for x in parts(c)), 'registry', 'empty type',
        'an empty type is not rejected', f.where())
    f = ctx.ix.fn(K + 'valid_cctype')
    r, c, s = form(ctx, f, inline=inl(), rewrite=norm)
    ctx.check(r.op == 'in' and r.a[0] is P0, 'registry', 'valid', 'validity '
        'of a type is %s' % show(r, limit=100), f.where())
    # -- loom feature types
    ctx.rule('loom-type', 'every primitive type maps to the feature type of '
        'its support, and large categoricals are unbounded')
    f = ctx.ix.fn(K + 'loom_stattype')
    r, c, s = form(ctx, f, inline=inl(), rewrite=norm)
    tn = [t.a[0].split('.')[-1] for t in subterms(r) if t.op == 'glob' and
        t.a[0].startswith(K)]
    lt = tables.get(tn[0]) if tn else None
    if lt is not None:
        for k, (mod, cn) in sorted(table.items()):
            if not mod.startswith('cgpm.primitives'):
                ctx.check(k not in lt, 'loom-type', k, '%s has a feature '
                    'type %s' % (k, lt.get(k)), f.where())
                continue
            ctx.check(lt.get(k) == LOOM.get(k, 'real'), 'loom-type', k,
                '%s maps to %s, expected %s' % (k, lt.get(k),
                    LOOM.get(k, 'real')), f.where())
        big = cmp_('lt', const(256), mk('item', P1, const('k')))
        cat = cmp_('eq', P0, const('categorical'))
        want = ite(and_(cat, big), const('crp'), P0)
        ctx.check(r.op == 'item' and decide(r.a[1]) is decide(want), 'loom-type',
            'many categories', 'the feature type looked up is that of %s'
            % show(r, limit=160), f.where())
    kinds = [e for e in s.events if e.kind == 'raise']
    ctx.check(any('ValueError' in show(e.value) for e in kinds if e.value
        is not None), 'loom-type', 'unknown', 'a type with no feature type '
        'is not rejected', f.where())
