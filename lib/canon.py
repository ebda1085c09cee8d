"""Canonical forms for comparing what two pieces of code compute."""
from terms import *        # noqa
import terms
from algebra import fname

SEQ_WRAP = {'list', 'tuple', 'iter', 'tqdm'}
UNORDERED = {'sorted', 'reversed', 'set', 'frozenset', 'unique'}
CHAIN = {'from_iterable', 'lchain', 'mergedl_'}


def last(f):
    if f.op in ('glob', 'func', 'class', 'bound', 'builtin', 'unbound') and \
            isinstance(f.a[0], str):
        return f.a[0].split('.')[-1].split('@')[0]
    if f.op == 'attr':
        return str(f.a[1]).split('@')[0]
    return ''


def call1(t, names):
    """Sole argument of a call to one of the names."""
    if t.op == 'call' and len(t.a[1]) == 1 and not t.a[2] and \
            last(t.a[0]) in names and t.a[0].op in ('glob', 'builtin', 'func',
                'attr', 'unbound'):
        return t.a[1][0]
    return None


class Canon(object):
    def __init__(self, ordered=True, rewrite=None):
        self.memo = {}
        self.ordered = ordered
        self.loops = {}
        self.names = {}
        self.rewrite = rewrite

    def __call__(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self(x) for x in t)
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        if t.op in ('phi', 'loopval'):
            t = self.loop(t)
        elif t.op == 'poly':
            r = const(0)
            for m, c in t.a[0]:
                z = mk('num', c)
                for a, e in m:
                    z = mul(z, power(self(a), const(e)))
                r = add(r, z)
            return r
        else:
            a = tuple(self(x) for x in t.a)
            t = rebuild(t.op, a)
        for _ in range(20):
            n = self.step(t)
            if n is t:
                break
            t = n
        return t

    def loop(self, t):
        if t.a[0][:1] == 'L' and t.a[0][1:].isdigit():
            return rebuild(t.op, tuple(self(x) for x in t.a))
        i = self.loops.setdefault(t.a[0], len(self.loops))
        if t.op == 'phi':
            j = self.names.setdefault((t.a[0], t.a[1]), len(self.names))
            return mk('phi', 'L%d' % i, 'v%d' % j, self(t.a[2]))
        return mk('loopval', 'L%d' % i, *[self(x) for x in t.a[1:]])

    # -- one rewriting step ---------------------------------------------
    def step(self, t):
        if self.rewrite is not None:
            r = self.rewrite(t)
            if r is not None and r is not t:
                return r
        op = t.op
        if op == 'does':
            return mk('does', *sorted(t.a, key=repr))
        if op == 'ite' and len(t.a) == 3:
            c = tv(t.a[0])
            return t if c is t.a[0] else ite(c, *t.a[1:])
        if op == 'not':
            return tv(t)
        if op == 'call':
            f, args, kw = t.a
            l = last(f)
            if f.op == 'glob' and l in ONE_BY_ONE and len(args) == 1 and \
                    not kw and args[0].op == 'ite':
                c, x, y = args[0].a
                return ite(c, mk('call', f, (x,), ()),
                    mk('call', f, (y,), ()))
            if f.op == 'glob' and f.a[0] == 'dict' and len(args) == 1 and \
                    not kw and args[0].op == 'dict':
                return args[0]
            if f.op == 'glob' and f.a[0] == 'dict' and len(args) == 1 and \
                    not kw and args[0].op == 'call' and \
                    args[0].a[0].op == 'glob' and last(args[0].a[0]) in (
                        'zip', 'izip') and len(args[0].a[1]) == 2 and not \
                    any(x.op == 'star' for x in args[0].a[1]):
                e = mk('elem', args[0], 0)
                return mk('comp', 'dict', mk('tuple', mk('item', e, const(0)),
                    mk('item', e, const(1))), ((args[0], ()),))
            if f.op == 'glob' and f.a[0] == 'copy.copy' and \
                    len(args) == 1 and not kw and args[0].op in ('param',
                        'item', 'attr', 'elem'):
                return mk('call', mk('glob', 'dict'), args, ())
            if l == 'merged' and len(args) == 2 and not kw and \
                    args[1].op == 'dict':
                x = args[0]
                if x.op not in ('dict', 'comp'):
                    x = mk('call', mk('glob', 'dict'), (x,), ())
                for k, v in args[1].a:
                    x = mk('setitem', x, k, v)
                return x
            if l in FOLDS and args:
                x = pointwise(args[0])
                if x is not args[0]:
                    return mk('call', f, (x,) + tuple(args[1:]), kw)
            if f.op == 'glob' and l in ('sorted', 'len', 'set', 'list') and \
                    len(args) == 1 and not kw and args[0].op == 'call' and \
                    args[0].a[0].op == 'attr' and not args[0].a[1] and \
                    args[0].a[0].a[1] in ('keys', 'iterkeys'):
                return mk('call', f, (args[0].a[0].a[0],), ())
            if l in CHAIN and len(args) == 1:
                x = args[0]
                if x.op == 'comp' and x.a[0] in ('list', 'gen', 'set'):
                    return self.flat(x)
                if x.op == 'list':
                    return concat(*[seq(y) for y in x.a])
            if f.op == 'glob' and f.a[0] == 'itertools.chain' and not kw:
                return concat(*[seq(y) for y in args])
            x = call1(t, {'list', 'tuple', 'iter'})
            if x is not None and f.op == 'glob':
                if x.op == 'comp' and x.a[0] in ('list', 'gen'):
                    return mk('comp', 'list', *x.a[1:])
                if x.op == 'concat':
                    return x
            x = call1(t, {'sorted'})
            if x is not None and f.op == 'glob' and x.op == 'comp' and \
                    x.a[0] in ('list', 'gen') and len(x.a[2]) == 1 and \
                    x.a[1] is mk('elem', x.a[2][0][0], 0):
                s, cs = x.a[2][0]
                z = mk('call', f, (s,), ())
                return mk('comp', 'list', x.a[1], ((z, cs),))
            x = call1(t, {'dict'})
            if x is not None and f.op == 'glob' and x.op == 'call' and \
                    last(x.a[0]) in ('zip', 'izip') and len(x.a[1]) == 2:
                r = zipped(*x.a[1])
                if r is not None:
                    return r
                u, v = x.a[1]
                w = call1(v, {'range', 'xrange'})
                if w is not None and call1(w, {'len'}) is u:
                    return mk('comp', 'dict', mk('tuple', mk('elem', u, 0),
                        mk('idx', u, 0)), ((u, ()),))
            x = call1(t, {'set', 'frozenset'})
            if x is not None and f.op == 'glob':
                if x.op == 'comp' and x.a[0] in ('list', 'gen', 'set'):
                    return mk('comp', 'set', *x.a[1:])
                if x.op in ('list', 'tuple'):
                    return mk('setdisp', *x.a)
                y = call1(x, SEQ_WRAP | UNORDERED)
                if y is not None:
                    return mk('call', f, (y,), ())
            if l in ('intersection', 'union', 'difference', 'isdisjoint',
                    'issubset', 'issuperset'):
                xs = list(args)
                if f.op == 'attr' and not (f.a[0].op == 'glob' and
                        f.a[0].a[0] == 'set'):
                    xs = [f.a[0]] + xs
                if len(xs) == 2:
                    return setop(l, *xs)
            if f.op == 'glob' and f.a[0] in ('numpy.add', 'numpy.multiply',
                    'numpy.logaddexp') and len(args) == 2 and not kw:
                return mk('call', f, tuple(sorted(args, key=repr)), ())
            x = call1(t, {'int'})
            if x is not None and x.op == 'ite' and x.a[2] in (FALSE,
                    const(0)) and x.a[1].op in ('anyq', 'allq', 'in', 'eq', 'and', 'or',
                        'lt', 'le', 'is', 'not'):
                return mk('call', f, (and_(*x.a[:2]),), ())
            if f.op == 'glob' and l in ('range', 'xrange') and \
                    len(args) == 2 and not kw:
                n = sub(args[1], args[0])
                z = call1(n, {'len'})
                if z is not None:
                    return mk('comp', 'list', add(args[0], mk('idx', z, 0)),
                        ((z, ()),))
            x = call1(t, {'len'})
            if x is not None and x.op == 'comp' and x.a[0] == 'list' and \
                    len(x.a[2]) == 1 and not x.a[2][0][1]:
                return mk('call', f, (x.a[2][0][0],), ())
            if x is not None:
                y = call1(x, {'range', 'xrange'})
                if y is not None:
                    return y
                y = call1(x, SEQ_WRAP | {'sorted', 'reversed'})
                if y is not None:
                    return mk('call', f, (y,), ())
        elif op in ('bitand', 'bitor') and len(t.a) == 2:
            return setop('intersection' if op == 'bitand' else 'union', *t.a)
        elif op == 'binop' and len(t.a) == 3 and t.a[0] in ('BitAnd', '&'):
            return setop('intersection', t.a[1], t.a[2])
        elif op == 'binop' and len(t.a) == 3 and t.a[0] in ('BitOr', '|'):
            return setop('union', t.a[1], t.a[2])
        elif op == 'comp':
            return self.comp(t)
        elif op in ('anyq', 'allq'):
            return self.quant(t)
        elif op == 'sum' and len(t.a) == 2:
            n = self.gens(t.a[0], t.a[1])
            if n is not None:
                return mk('sum', *n)
        elif op == 'in':
            x, c = t.a
            y = call1(c, SEQ_WRAP | UNORDERED | {'dict'})
            if y is not None and (last(c.a[0]) != 'dict' or y.op in (
                    'param', 'item', 'attr', 'elem')):
                return cmp_('in', x, y)
            if c.op in ('union', 'concat', 'setmerge', 'dictmerge'):
                return or_(*[cmp_('in', x, y) for y in c.a])
            if c.op == 'inter':
                return and_(*[cmp_('in', x, y) for y in c.a])
            if c.op == 'diff':
                return and_(cmp_('in', x, c.a[0]),
                    not_(cmp_('in', x, c.a[1])))
            if c.op == 'comp' and c.a[0] in ('list', 'gen', 'set'):
                return mk('anyq', and_(cmp_('eq', x, c.a[1]),
                    *[k for _s, cs in c.a[2] for k in cs]),
                    tuple((s, ()) for s, _ in c.a[2]))
        elif op == 'elem' and t.a[0].op == 'comp' and t.a[0].a[0] in (
                'list', 'gen'):
            # An element of [f(x) for x in A] is f of an element of A.
            return t.a[0].a[1]
        elif op == 'unpack' and len(t.a) == 2 and isinstance(t.a[1], int):
            return mk('item', t.a[0], const(t.a[1]))
        elif op == 'item':
            b, i = t.a
            if i.op == 'num' and b.op == 'call' and last(b.a[0]) in (
                    'zip', 'izip') and len(b.a[1]) == 1 and \
                    b.a[1][0].op == 'star':
                # A column of a list of tuples.
                x = b.a[1][0].a[0]
                if x.op == 'comp' and x.a[0] in ('list', 'gen'):
                    return mk('comp', 'list', mk('item', x.a[1], i), x.a[2])
                return mk('comp', 'list', mk('item', mk('elem', x, 0), i),
                    ((x, ()),))
            if i.op == 'num' and b.op in ('tuple', 'list') and \
                    0 <= i.a[0] < len(b.a):
                return b.a[int(i.a[0])]
            if i.op == 'idx' and i.a[0] is b:
                return mk('elem', b, i.a[1])
            if b.op == 'comp' and b.a[0] in ('list', 'gen') and \
                    len(b.a[2]) == 1 and not b.a[2][0][1] and \
                    i is mk('idx', b.a[2][0][0], 0):
                return b.a[1]
            if b.op == 'comp' and b.a[0] == 'list' and i.op != 'sliceobj' \
                    and len(b.a[2]) == 1 and b.a[1].op == 'item' and \
                    b.a[1].a[1].op == 'num':
                # The part of an element, not an element of the parts.
                x, k = b.a[1].a
                return mk('item', self(mk('item', mk('comp', 'list', x,
                    b.a[2]), i)), k)
            if b.op == 'comp' and b.a[0] == 'dict' and len(b.a[2]) == 1 and \
                    not b.a[2][0][1] and b.a[1].op == 'tuple' and \
                    b.a[2][0][0].op == 'attr' and \
                    b.a[2][0][0].a[1] == 'outputs' and \
                    b.a[1].a[0] is mk('elem', b.a[2][0][0], 0):
                # A value that is paired with a column, by that column.
                o = b.a[2][0][0]
                return subst(b.a[1].a[1], {mk('elem', o, 0): i,
                    mk('idx', o, 0): mk('call', mk('attr', o, 'index'),
                        (i,), ())})
            if b.op == 'ite':
                return ite(b.a[0], mk('item', b.a[1], i),
                    mk('item', b.a[2], i))
            if b.op == 'repeat' and i.op == 'idx' and b.a[0].op == 'list' \
                    and len(b.a[0].a) == 1:
                return b.a[0].a[0]
        elif op == 'dictmerge' and len(t.a) == 2 and \
                call1(t.a[1], {'dict'}) is not None:
            return mk('dictmerge', t.a[0], call1(t.a[1], {'dict'}))
        elif op == 'dictmerge' and len(t.a) == 2:
            r = filled(*t.a)
            if r is not None:
                return r
        elif op == 'slice' and t.a[0].op == 'attr' and t.a[0].a[1] == \
                'outputs' and t.a[1] is NONE and t.a[3] is NONE and \
                t.a[2] is const(1):
            # There is at least one output.
            return mk('list', mk('item', t.a[0], const(0)))
        elif op == 'delitem' and len(t.a) == 2 or op == 'localmut' and \
                t.a[0] == 'pop' and len(t.a[2]) == 1:
            d, k = (t.a[1], t.a[2][0]) if op == 'localmut' else t.a
            x = call1(d, {'dict'}) if isinstance(d, T) else None
            if x is not None and not contains_any(k, lambda y: y.op in
                    ('phi', 'loopval')) and x.op in ('param', 'attr'):
                # A copy without one of its keys.
                e = mk('elem', x, 0)
                return mk('comp', 'dict', mk('tuple', e, mk('item', x, e)),
                    ((x, (not_(cmp_('eq', e, k)),)),))
        elif op == 'append' and len(t.a) == 2:
            return concat(t.a[0], mk('list', t.a[1]))
        elif op == 'concat':
            r = concat(*t.a)
            if r is not t:
                return r
            n = [i for i, x in enumerate(t.a) if x.op == 'ite' and any(
                y.op == 'list' and not y.a for y in x.a[1:])]
            if n:
                i = n[0]
                c, x, y = t.a[i].a
                return ite(c, concat(*(t.a[:i] + (x,) + t.a[i + 1:])),
                    concat(*(t.a[:i] + (y,) + t.a[i + 1:])))
        elif op in ('lt', 'le', 'eq'):
            r = truth(t)
            if r is not None:
                return r
            for c, p in (t.a, t.a[::-1]):
                z = constant(p) if c.op == 'num' and p.op == 'poly' else None
                if z:
                    return cmp_(op, sub(t.a[0], z), sub(t.a[1], z))
        return t

    def flat(self, x):
        inner, gens = x.a[1], x.a[2]
        y = call1(inner, SEQ_WRAP)
        if y is not None:
            inner = y
        if inner.op == 'comp' and inner.a[0] in ('list', 'gen'):
            return mk('comp', 'list', inner.a[1], gens + inner.a[2])
        d = sum(1 for g in gens if g[0] is inner)
        return mk('comp', 'list', mk('elem', inner, d), gens + ((inner, ()),))

    def source(self, s, ordered):
        while True:
            y = call1(s, SEQ_WRAP)
            if y is None and not ordered:
                y = call1(s, UNORDERED - {'unique'})
            if y is None:
                y = call1(s, {'enumerate'})
            if y is None:
                z = call1(s, {'range', 'xrange'})
                if z is not None:
                    y = call1(z, {'len'})
            if y is None and s.op == 'call' and not s.a[1] and \
                    s.a[0].op == 'attr' and s.a[0].a[1] in (
                        'keys', 'items', 'values', 'iterkeys', 'iteritems',
                        'itervalues'):
                y = s.a[0].a[0]
            if y is None:
                return s
            s = y

    def gens(self, elt, gens, ordered=True):
        """Fused (elt, gens) or None when unchanged."""
        out, changed, env = [], False, {}
        for g in gens:
            s, cs = g
            if env:
                s = self(subst(s, env))
                cs = tuple(self(subst(c, env)) for c in cs)
                changed = True
            s2 = self.source(s, ordered)
            if s2 is not s:
                z = call1(s, {'range', 'xrange'})
                o = 'idx' if z is not None and call1(z, {'len'}) is not \
                    None else 'elem'
                e0 = {mk('elem', s, d): mk(o, s2, d) for d in (0, 1, 2)}
                e0.update({mk('idx', s, d): mk('idx', s2, d)
                    for d in (0, 1, 2)})
                env.update(e0)
                cs = tuple(self(subst(c, e0)) for c in cs)
                s, changed = s2, True
            if s.op == 'call' and last(s.a[0]) in ('zip', 'izip') and \
                    s.a[0].op == 'glob' and len(s.a[1]) > 1 and not s.a[2]:
                # Parallel iteration is indexing along one of them.
                xs = sorted(s.a[1], key=along)
                e0 = {mk('elem', x, d): mk('item', x, mk('idx', xs[0], d))
                    for x in xs[1:] for d in (0, 1, 2)}
                e0.update({mk('idx', x, d): mk('idx', xs[0], d)
                    for x in [s] + xs[1:] for d in (0, 1, 2)})
                for i, x in enumerate(s.a[1]):
                    for d in (0, 1, 2):
                        y = mk('elem', s, d)
                        v = mk('elem', x, d) if x is xs[0] else mk('item', x,
                            mk('idx', xs[0], d))
                        e0[mk('item', y, const(i))] = v
                        e0[mk('unpack', y, i)] = v
                env.update(e0)
                cs = tuple(self(subst(c, e0)) for c in cs)
                s, changed = xs[0], True
            if s.op == 'comp' and s.a[0] in ('list', 'gen') or (
                    s.op == 'comp' and s.a[0] == 'set' and not ordered):
                e0 = {mk('elem', s, d): s.a[1] for d in (0, 1, 2)}
                if s.a[0] == 'list' and len(s.a[2]) == 1 and \
                        not s.a[2][0][1]:
                    e0.update({mk('idx', s, d): mk('idx', s.a[2][0][0], d)
                        for d in (0, 1, 2)})
                z = call1(s.a[2][0][0], {'sorted'})
                if z is not None and len(s.a[2]) == 1:
                    # Elements of sorted(X) are written as elements of X.
                    u = mk('comp', s.a[0], s.a[1], ((z, s.a[2][0][1]),))
                    e0.update({mk('elem', u, d): s.a[1] for d in (0, 1, 2)})
                cs = tuple(self(subst(c, e0)) for c in cs)
                env = {k: subst(v, e0) for k, v in env.items()}
                env.update(e0)
                gs = list(s.a[2])
                gs[-1] = (gs[-1][0], tuple(gs[-1][1]) + cs)
                out.extend(gs)
                changed = True
                continue
            flat = []
            for c in cs:
                flat.extend(c.a if c.op == 'and' else (c,))
            n = tuple(sorted(set(flat), key=lambda c: c.n))
            if n != tuple(cs):
                changed = True
            out.append((s, n))
        if not changed:
            return None
        return self(subst(elt, env)) if env else elt, tuple(out)

    def comp(self, t):
        kind, elt, gens = t.a
        if any(tv(c) is not c for _s, cs in gens for c in cs):
            return mk('comp', kind, elt, tuple((s, tuple(tv(c) for c in cs))
                for s, cs in gens))
        if kind == 'gen':
            return mk('comp', 'list', elt, gens)
        if kind == 'dict' and len(gens) == 1 and not gens[0][1] and \
                gens[0][0].op not in ('list', 'tuple', 'comp', 'concat'):
            # {k: d[k] for k in d}
            d, k = gens[0][0], mk('elem', gens[0][0], 0)
            if elt is mk('tuple', k, mk('item', d, k)):
                return mk('call', mk('glob', 'dict'), (d,), ())
        n = self.gens(elt, gens, kind == 'list' and self.ordered)
        if n is not None:
            return mk('comp', kind, *n)
        if kind == 'list' and len(gens) == 1 and not gens[0][1] and \
                elt.op in ('const', 'num', 'param'):
            z = call1(gens[0][0], {'range', 'xrange'})
            return mk('repeat', mk('list', elt), z if z is not None else
                mk('call', mk('glob', 'len'), (gens[0][0],), ()))
        if kind == 'list' and len(gens) == 1 and not gens[0][1]:
            r = spread(elt, gens[0][0])
            if r is not None:
                return self(r)
        if kind == 'list' and len(gens) == 1 and not gens[0][1] and \
                elt is mk('elem', gens[0][0], 0):
            return seq(gens[0][0])
        return t

    def quant(self, t):
        q, elt, gens = t.op, tv(t.a[0]), t.a[1]
        if elt is not t.a[0]:
            return mk(q, elt, gens)
        if len(gens) == 1 and not gens[0][1]:
            # Something of x is in y: something of y is in x.
            s, e = gens[0][0], elt if q == 'anyq' else not_(elt)
            if e.op == 'in' and e.a[0] is mk('elem', s, 0) and not contains(
                    e.a[1], e.a[0]):
                r = shared(strip(s), strip(e.a[1]))
                if q == 'allq':
                    r = not_(r)
                if r is not t:
                    return r
        n = self.gens(elt, gens, False)
        if n is not None:
            elt, gens = n
        if elt is (FALSE if q == 'anyq' else TRUE):
            return elt
        if any(s.op in ('dict', 'list', 'tuple') and not s.a
                for s, _ in gens):
            return FALSE if q == 'anyq' else TRUE
        if len(gens) == 1:
            xs = summands(gens[0][0])
            if len(xs) > 1:
                # Over a + b: over a, or over b.
                out = []
                for x in xs:
                    e0 = {mk(o, gens[0][0], d): mk(o, x, d)
                        for d in (0, 1, 2) for o in ('elem', 'idx')}
                    out.append(mk(q, subst(elt, e0), ((x, tuple(
                        subst(c, e0) for c in gens[0][1])),)))
                return or_(*out) if q == 'anyq' else and_(*out)
        conds = [c for _s, cs in gens for c in cs]
        if conds:
            elt = and_(elt, *conds) if q == 'anyq' else \
                or_(elt, *[not_(c) for c in conds])
            gens = tuple((s, ()) for s, _ in gens)
            return mk(q, elt, gens)
        if elt.op == q:
            return mk(q, elt.a[0], gens + elt.a[1])
        # any(A or B) = any(A) or any(B)
        if q == 'anyq' and elt.op == 'or':
            return or_(*[mk(q, x, gens) for x in elt.a])
        if q == 'allq' and elt.op == 'and':
            return and_(*[mk(q, x, gens) for x in elt.a])
        els = {mk('elem', s, d) for s, _ in gens for d in (0, 1, 2)} | \
            {mk('idx', s, d) for s, _ in gens for d in (0, 1, 2)}
        # Conditions that do not vary over the loop.
        if elt.op == ('and' if q == 'anyq' else 'or'):
            fix = [x for x in elt.a if fixed(x, els)]
            if fix and len(fix) < len(elt.a):
                op = and_ if q == 'anyq' else or_
                return op(*(fix + [mk(q, op(*[x for x in elt.a
                    if x not in fix]), gens)]))
        if elt.op == 'ite' and fixed(elt.a[0], els):
            return ite(elt.a[0], mk(q, elt.a[1], gens),
                mk(q, elt.a[2], gens))
        # Membership written as a quantifier.
        if q == 'anyq' and len(gens) == 1 and elt.op in ('eq', 'is'):
            e = mk('elem', gens[0][0], 0)
            for x, y in (elt.a, elt.a[::-1]):
                if x is e and not contains(y, e):
                    return cmp_('in', y, gens[0][0])
        if q == 'allq' and len(gens) == 1 and elt.op == 'not' and \
                elt.a[0].op in ('eq', 'is'):
            return not_(mk('anyq', elt.a[0], gens))
        if n is not None:
            return mk(q, elt, gens)
        return t


def fixed(x, els):
    """Nothing of it varies but what its own quantifiers run over."""
    bad = [y for y in subterms(x) if y in els or y.op in VARY]
    if not bad:
        return True
    if any(y in els or y.op not in ('elem', 'idx') for y in bad):
        return False
    own = {s for y in subterms(x) if y.op in ('anyq', 'allq')
        for s, _ in y.a[1]}
    return all(y.a[0] in own for y in bad) and x.op in (
        'anyq', 'allq', 'not', 'and', 'or')


VARY = {'loopval', 'phi', 'before', 'seen', 'elem', 'idx'}


def spread(elt, s):
    """[f(x) for x in A + B] as [f(x) for x in A] + [f(x) for x in B]."""
    e = mk('elem', s, 0)
    if contains(elt, mk('idx', s, 0)):
        return None
    if s.op == 'concat':
        return concat(*[mk('comp', 'list', subst(elt, {e: mk('elem', x, 0)}),
            ((x, ()),)) for x in s.a])
    if s.op == 'repeat' and s.a[0].op == 'list':
        return mk('repeat', mk('list', *[subst(elt, {e: x})
            for x in s.a[0].a]), s.a[1])
    if s.op == 'list':
        return mk('list', *[subst(elt, {e: x}) for x in s.a])
    return None


def seq(s):
    """The elements of s as a list."""
    y = call1(s, SEQ_WRAP)
    return s if y is None else y


def concat(*xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            out.extend(x.a)
        elif x.op == 'list' and not x.a:
            continue
        else:
            y = call1(x, {'list', 'tuple'})
            if x.op == 'call' and x.a[0].op == 'attr' and \
                    x.a[0].a[1] == 'keys' and not x.a[1]:
                y = x.a[0].a[0]
            out.append(x if y is None else y)
    return out[0] if len(out) == 1 else mk('concat', *out)


def zipped(x, y):
    """dict(zip(x, y)) of two sequences derived from one."""
    s = None
    for z in (x, y):
        if z.op == 'comp' and z.a[0] in ('list', 'gen') and \
                len(z.a[2]) == 1 and not z.a[2][0][1]:
            s = z.a[2][0][0]
    if s is None:
        return None

    def el(z):
        if z is s:
            return mk('elem', s, 0)
        if z.op == 'comp' and z.a[0] in ('list', 'gen') and \
                z.a[2] == ((s, ()),):
            return z.a[1]
        n = call1(z, {'range', 'xrange'})
        n = call1(n, {'len'}) if n is not None else None
        return mk('idx', s, 0) if n is s else None
    a, b = el(x), el(y)
    if a is None or b is None:
        return None
    return mk('comp', 'dict', mk('tuple', a, b), ((s, ()),))


def filled(b, d):
    """[x] * n with every item set is the list of the items."""
    if b.op != 'repeat' or b.a[0].op != 'list' or len(b.a[0].a) != 1 or \
            d.op != 'comp' or d.a[0] != 'dict' or len(d.a[2]) != 1 or \
            d.a[2][0][1] or d.a[1].op != 'tuple':
        return None
    src = d.a[2][0][0]
    n = call1(src, {'range', 'xrange'})
    if n is b.a[1] and d.a[1].a[0] is mk('elem', src, 0):
        return mk('comp', 'list', d.a[1].a[1], d.a[2])
    return None


def strip(x):
    while True:
        y = call1(x, SEQ_WRAP | UNORDERED)
        if y is None:
            if x.op == 'comp' and x.a[0] in ('list', 'gen'):
                return mk('comp', 'set', *x.a[1:])
            return x
        x = y


def setop(l, x, y):
    x, y = strip(x), strip(y)
    if l in ('intersection', 'union'):
        x, y = sorted((x, y), key=lambda t: t.n)
        return mk('inter' if l == 'intersection' else 'union', x, y)
    if l == 'isdisjoint':
        return not_(setop('intersection', x, y))
    if l == 'issuperset':
        return mk('subset', y, x)
    return mk({'difference': 'diff', 'issubset': 'subset'}[l], x, y)


def truth(t):
    """len(x) == 0, 0 < len(x), ... as truth of x."""
    def ln(x):
        return call1(x, {'len'}) if x.op == 'call' else None
    x, y = t.a
    Z, O = const(0), const(1)
    if t.op == 'eq':
        for p, q in ((x, y), (y, x)):
            if ln(p) is not None and q is Z:
                return not_(strip(ln(p)))
    if t.op == 'lt' and x is Z and ln(y) is not None:
        return strip(ln(y))
    if t.op == 'lt' and y is O and ln(x) is not None:
        return not_(strip(ln(x)))
    if t.op == 'le' and x is O and ln(y) is not None:
        return strip(ln(y))
    if t.op == 'le' and y is Z and ln(x) is not None:
        return not_(strip(ln(x)))
    return None


def summands(s):
    """The sequences a sequence is the concatenation of."""
    if s.op == 'concat':
        return s.a
    if s.op == 'poly':
        out = []
        for m, c in s.a[0]:
            if c != 1 or len(m) != 1 or m[0][1] != 1:
                return ()
            out.append(m[0][0])
        return tuple(out)
    return ()


def along(x):
    if x.op == 'comp' and x.a[0] in ('list', 'gen') and \
            len(x.a[2]) == 1 and not x.a[2][0][1]:
        return 0, height(x.a[2][0][0]), x.a[2][0][0].n
    return 1, height(x), x.n


_HEIGHT = {}


def height(x):
    """Depth of a term; the part of a term is lower than the term."""
    if isinstance(x, tuple):
        return max([0] + [height(y) for y in x])
    if not isinstance(x, T):
        return 0
    h = _HEIGHT.get(x)
    if h is None:
        h = _HEIGHT[x] = 1 + height(x.a)
    return h


def constant(p):
    """Constant term of a polynomial."""
    for m, c in p.a[0]:
        if not m:
            return mk('num', c)
    return None


ONE_BY_ONE = {'dict', 'list', 'tuple', 'set', 'sorted'}
FOLDS = {'logsumexp', 'log_pflip', 'pflip', 'log_normalize', 'logmeanexp'}


def pointwise(t):
    """numpy.add of two sequences, element by element."""
    if t.op != 'call' or t.a[0].op != 'glob' or t.a[0].a[0] != 'numpy.add' \
            or len(t.a[1]) != 2 or t.a[2]:
        return t
    xs = t.a[1]
    ls = [x for x in xs if x.op == 'comp' and x.a[0] == 'list' and
        len(x.a[2]) == 1 and not x.a[2][0][1]]
    src = sorted({x.a[2][0][0] for x in ls} or set(xs), key=lambda x: x.n)[0]

    def el(x):
        if x is src:
            return mk('elem', x, 0)
        if x in ls and x.a[2][0][0] is src:
            return x.a[1]
        return mk('item', x, mk('idx', src, 0))
    return mk('comp', 'list', add(el(xs[0]), el(xs[1])), ((src, ()),))


COUNTS = {'numpy.bincount', 'len'}


def counting(x):
    while x.op in ('elem', 'item'):
        x = x.a[0]
    return x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in COUNTS


def shared(x, y):
    """Something is in both."""
    if y.op in ('list', 'tuple', 'dict', 'setdisp'):
        x, y = y, x
    if x.op in ('list', 'tuple', 'setdisp'):
        return or_(*[cmp_('in', e, y) for e in x.a])
    x, y = sorted((x, y), key=lambda z: (height(z), z.n))
    return mk('anyq', cmp_('in', mk('elem', x, 0), y), ((x, ()),))


def tv(t):
    """What decides the truth of t."""
    if t.op == 'inter' and len(t.a) == 2:
        return shared(*t.a)
    if t.op in ('not', 'and', 'or'):
        a = tuple(tv(x) for x in t.a)
        return t if a == t.a else rebuild(t.op, a)
    while True:
        if t.op == 'call' and t.a[0].op == 'glob':
            y = call1(t, {'list', 'tuple', 'sorted', 'set', 'frozenset',
                'dict', 'len', 'bool', 'OrderedDict'})
            if y is None or y.op == 'comp' or y.op == 'call' and \
                    y.a[0].op == 'glob':
                return t
            t = y
            continue
        if t.op == 'call' and t.a[0].op == 'attr' and not t.a[1] and \
                t.a[0].a[1] in ('keys', 'values', 'items'):
            t = t.a[0].a[0]
            continue
        if t.op == 'lt' and t.a[0] is const(0) and counting(t.a[1]):
            return t.a[1]
        if t.op == 'eq' and t.a[0] is const(0) and counting(t.a[1]):
            return not_(t.a[1])
        if t.op == 'eq' and t.a[1] is const(0) and counting(t.a[0]):
            return not_(t.a[0])
        return t


def exists(e, extra=()):
    """Condition under which an event happens, loops as quantifiers."""
    c = and_(*(tuple(e.guard) + tuple(extra)))
    gens = tuple((fr[1], ()) for fr in e.ctx if fr[0] == 'for'
        and fr[1] is not None)
    return mk('anyq', c, gens) if gens else c


def conditions(s, cn, types=None, kind='raise'):
    """Disjunction of the conditions of the raise events, canonical, with
    conjuncts that only say an earlier alternative did not apply removed."""
    alts = []
    for e in s.events:
        if e.kind != kind:
            continue
        if types is not None and exc(e) not in types:
            continue
        alts.append(cn(exists(e)))
    return simplify_or(alts)


def exc(e):
    v = e.value
    if v is None:
        return ''
    if v.op == 'call':
        return last(v.a[0])
    return last(v) if v.op in ('glob', 'builtin') else ''


def simplify_or(alts):
    flat = []
    for a in alts:
        flat.extend(a.a if a.op == 'or' else (a,))
    alts = flat
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(alts):
            others = [b for j, b in enumerate(alts) if j != i]
            n = reduce_under(a, others)
            if n is not a:
                alts[i] = n
                changed = True
    out = []
    for a in alts:
        for b in (a.a if a.op == 'or' else (a,)):
            if b not in out and b is not FALSE:
                out.append(b)
    return or_(*out)


def reduce_under(a, others):
    """Drop conjuncts of a that hold whenever no other alternative does."""
    if a.op == 'and':
        keep = [c for c in a.a if not any(
            not_(c) is o or o.op == 'or' and not_(c) in o.a for o in others)]
        if len(keep) != len(a.a):
            return and_(*keep)
    if a.op == 'anyq' and a.a[0].op == 'and':
        keep = []
        for c in a.a[0].a:
            nc = not_(c)
            if any(o.op == 'anyq' and implied(o, nc, a.a[1])
                    for o in others) or any(nc is o for o in others):
                continue
            keep.append(c)
        if len(keep) != len(a.a[0].a):
            return mk('anyq', and_(*keep), a.a[1])
    return a


def implied(o, nc, gens):
    """The alternative `any(nc over gens)` is covered by o."""
    if o.a[0] is nc and set(x[0] for x in o.a[1]) <= set(x[0] for x in gens):
        return True
    return False


def bsimp(t):
    """Simplify boolean structure: what one conjunct (disjunct) settles is
    replaced in the others."""
    for _ in range(10):
        n = _bs(t)
        if n is t:
            return t
        t = n
    return t


def _bs(t):
    if t.op == 'not':
        return not_(_bs(t.a[0])) if t.a[0].op in ('and', 'or', 'ite') else t
    if t.op not in ('and', 'or'):
        return t
    xs = [_bs(x) for x in t.a]
    val = TRUE if t.op == 'and' else FALSE
    lits = [x for x in xs if x.op not in ('and', 'or')]
    out = []
    for x in xs:
        env = {}
        for l in lits:
            if l is not x:
                env[l] = val
        out.append(_assume(x, env) if env and x.op in ('and', 'or') else x)
    # Absorption: A or (A and B) = A.
    f = and_ if t.op == 'and' else or_
    dual = 'or' if t.op == 'and' else 'and'
    keep = []
    for i, x in enumerate(out):
        px = set(x.a) if x.op == dual else {x}
        if any(j != i and (set(y.a) if y.op == dual else {y}) <= px and
                (y is not x or j < i) for j, y in enumerate(out)):
            continue
        keep.append(x)
    r = f(*keep)
    return t if r is t else r


def _assume(x, env):
    if x in env:
        return env[x]
    n = not_(x)
    if n in env:
        return not_(env[n])
    if x.op == 'and':
        return and_(*[_assume(y, env) for y in x.a])
    if x.op == 'or':
        return or_(*[_assume(y, env) for y in x.a])
    return x


def decide(t, memo=None, budget=None, lift=False):
    """Conditionals as reduced ordered decision trees: two nestings of the
    same tests with the same outcomes give the same term."""
    memo = {} if memo is None else memo
    budget = [3000] if budget is None else budget

    def settled(x):
        """The tests' own conditionals come first."""
        if x.op != 'ite':
            return x
        c = go(x.a[0]) if any(inner(a) for a in _tests(x.a[0])) else x.a[0]
        y, n = settled(x.a[1]), settled(x.a[2])
        return x if (c, y, n) == x.a else mk('ite', c, y, n)

    def inner(a):
        return any(y.op == 'ite' for y in subterms(a))

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'ite':
            r = _tree(settled(x), go, budget)
        elif x.op == 'poly':
            r = const(0)
            for m, c in x.a[0]:
                z = mk('num', c)
                for b, e in m:
                    z = mul(z, power(go(b), const(e)))
                r = add(r, z)
            if lift:
                r = raised(r, go, budget)
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else rebuild(x.op, a)
        memo[x] = r
        return r
    return go(t)


def raised(r, go, budget):
    """Conditionals inside arithmetic moved to the outside."""
    if r.op != 'poly':
        return r
    own = []
    for m, _c in r.a[0]:
        for b, _e in m:
            if b.op == 'ite' and b not in own:
                own.append(b)
    if not own or len(own) > 3:
        return r
    tests = []
    for b in own:
        if b.a[0] not in tests:
            tests.append(b.a[0])
    if len(tests) > 3:
        return r

    def split(x, cs):
        if not cs:
            return x
        return mk('ite', cs[0], split(subst(x, {
            b: b.a[1] for b in own if b.a[0] is cs[0]}), cs[1:]),
            split(subst(x, {b: b.a[2] for b in own
                if b.a[0] is cs[0]}), cs[1:]))
    t = split(r, tests)
    return _tree(t, go, budget) if t.op == 'ite' else go(t)


def _atoms(c, out):
    if c.op in ('and', 'or', 'not', 'orelse'):
        for x in c.a:
            _atoms(x, out)
    elif c.op in ('list', 'dict') or c is NONE:
        pass
    elif c.op == 'ite':
        for x in c.a:
            _atoms(x, out)
    elif c not in (TRUE, FALSE):
        out.add(not_(c) if c.op == 'anyq' else c)


def _tests(c):
    out = set()
    _atoms(c, out)
    return out


def _tree(t, go, budget):
    if t.op != 'ite':
        return go(t)
    budget[0] -= 1
    if budget[0] < 0:
        return t
    at, x = set(), t
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == 'ite':
            _atoms(x.a[0], at)
            stack.extend(x.a[1:])
    if not at:
        r = as_truth(t, {})
        return go(r) if r is not t and r.op != 'ite' else t
    a = min(at, key=lambda x: x.n)
    yes = _tree(assume(t, a, True), go, budget)
    no = _tree(assume(t, a, False), go, budget)
    return yes if yes is no else mk('ite', a, yes, no)


BOOL = {'not', 'and', 'or', 'lt', 'le', 'eq', 'is', 'in', 'anyq', 'allq'}


def assume(t, atom, value):
    """t knowing the outcome of one test."""
    val = TRUE if value else FALSE
    mp, truth_of = {}, {}
    if atom.op in BOOL:
        mp[atom] = val
        if atom.op in ('anyq', 'allq'):
            mp[not_(atom)] = not_(val)
        if atom.op in ('lt', 'le'):
            x, y = atom.a
            if value == (atom.op == 'lt'):
                # x < y, or y < x where x <= y is false.
                if not value:
                    x, y = y, x
                mp.update({mk('lt', x, y): TRUE, mk('le', x, y): TRUE,
                    mk('lt', y, x): FALSE, mk('le', y, x): FALSE,
                    cmp_('eq', x, y): FALSE})
            else:
                if not value:
                    x, y = y, x
                mp.update({mk('le', x, y): TRUE, mk('lt', y, x): FALSE})
            mp.pop(TRUE, None), mp.pop(FALSE, None)
    else:
        truth_of[atom] = val
        if value:
            mp[cmp_('is', NONE, atom)] = FALSE
        else:
            # Nothing is in an empty container.
            for s in subterms(t):
                if s.op == 'in' and s.a[1] is atom:
                    mp[s] = FALSE
    if value and atom.op == 'in':
        truth_of[atom.a[1]] = TRUE
    if value and atom.op == 'is' and NONE in atom.a:
        mp[atom.a[1] if atom.a[0] is NONE else atom.a[0]] = NONE
    if value and atom.op == 'eq':
        for c, x in (atom.a, atom.a[::-1]):
            if is_const(c) and not is_const(x):
                for s in subterms(t):
                    if s.op == 'eq' and x in s.a and s is not atom:
                        y = s.a[0] if s.a[1] is x else s.a[1]
                        if is_const(y) and y is not c:
                            mp[s] = FALSE
        x, y = sorted(atom.a, key=lambda z: z.n)
        if not is_const(x) and not is_const(y) and not contains(y, x) and \
                not contains(x, y):
            mp[y] = x
    r = subst(t, mp) if mp else t
    return as_truth(r, truth_of)


def as_truth(t, truth_of):
    """Replace values only where their truth is what matters."""
    memo = {}

    def go(x, b):
        if isinstance(x, tuple):
            return tuple(go(y, False) for y in x)
        if not isinstance(x, T):
            return x
        if b and x in truth_of:
            return truth_of[x]
        if b and x is NONE:
            return FALSE
        if b and x.op in ('list', 'dict'):
            return TRUE if x.a else FALSE
        if x.op in ('const', 'num', 'poly'):
            return x
        k = (x, b)
        if k in memo:
            return memo[k]
        if x.op == 'ite':
            a = (go(x.a[0], True), go(x.a[1], b), go(x.a[2], b))
        elif x.op in ('and', 'or', 'not'):
            a = tuple(go(y, True) for y in x.a)
        elif b and x.op == 'orelse':
            r = memo[k] = or_(*[go(y, True) for y in x.a])
            return r
        elif x.op in ('anyq', 'allq'):
            a = (go(x.a[0], True), tuple((go(s, False), tuple(go(c, True)
                for c in cs)) for s, cs in x.a[1]))
        elif x.op == 'comp':
            a = (x.a[0], go(x.a[1], False), tuple((go(s, False), tuple(
                go(c, True) for c in cs)) for s, cs in x.a[2]))
        else:
            a = tuple(go(y, False) for y in x.a)
        r = x if a == x.a else rebuild(x.op, a)
        memo[k] = r
        return r
    return go(t, False)
