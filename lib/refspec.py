"""Comparison of a function with reference definitions by canonical form."""
import ast

import core
import front
from canon import Canon, conditions, exc, decide
from terms import *        # noqa


class Ref(object):
    def __init__(self, ctx, text, key='ref', consts=None):
        self.ctx = ctx
        m = front.Module('spec_%s' % key, 'spec/%s.py' % key,
            front.normal(ast.parse(text)), text)
        m.relpath = 'spec'
        ctx.ix.modules[m.name] = m
        ctx.ix._index_module(m)
        self.m = m

    def fn(self, name):
        return self.ctx.ix.fn('%s.%s' % (self.m.name, name))


def positional(f, skip=0):
    return [a.arg for a in f.node.args.args][skip:]


def form(ctx, f, inline=None, rewrite=None, cls=None, args=None, ordered=True,
        post=None, dec=True, bodies=False):
    """(canonical result, canonical rejection condition, summary)."""
    names = positional(f, 1 if cls is not None else 0)
    a = {n: mk('param', '#%d' % i) for i, n in enumerate(names)}
    for k, v in (args or {}).items():
        if isinstance(k, int):
            k = names[k] if k < len(names) else None
        if k is not None:
            a[k] = v
    s = ctx.summ(f, cls, inline=inline, args=a)
    cn = Canon(ordered=ordered, rewrite=rewrite)
    res = s.result if s.result is not None else NONE
    if bodies:
        res = where(res, s.an.bodies)
    r = cn(res)
    c = conditions(s, cn)
    again = Canon(ordered=ordered, rewrite=rewrite)
    c = again(c)
    if dec:
        r = decide(again(decide(r)))
        c = decide(c)
    if post is not None:
        r, c = post(r), post(c)
    return r, c, s


def where(res, bodies, *also):
    """The result together with what each loop does to the variables it
    (and `also`) depends on."""
    out, todo, seen = [], [res] + list(also), set()
    while todo:
        x = todo.pop(0)
        for p in order(x):
            if p not in seen:
                seen.add(p)
                b = bodies.get(p, ())
                b = b if isinstance(b, tuple) else (b,)
                out.append(mk('tuple', p, *b))
                todo.extend(b)
    return mk('where', res, *out) if out else res


def order(t):
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'phi':
                out.append(x)
            for y in x.a:
                go(y)
    go(t)
    return out


def parts(c):
    if c is FALSE:
        return []
    return list(c.a) if c.op == 'or' else [c]


def same(ctx, rule, f, refs, ref, what, inline=None, rewrite=None,
        where=None, args=None, ordered=True, post=None, results=True,
        bodies=False, rejects=True):
    """One obligation: f computes what one of the reference variants does."""
    place = where
    r, c, s = form(ctx, f, inline, rewrite, args=args, ordered=ordered,
        post=post, bodies=bodies)
    seen = []
    for n in refs:
        r2, c2, _ = form(ctx, ref.fn(n), inline, rewrite, args=args,
            ordered=ordered, post=post, bodies=bodies)
        if (r is r2 or not results) and (c is c2 or not rejects):
            ctx.ok(rule, f.short)
            return True
        seen.append((r2, c2))
    r2, c2 = seen[0]
    if results and r is not r2:
        msg = '%s: computes %s, expected %s' % (what, show(r, limit=240),
            show(r2, limit=240))
    else:
        lost = [x for x in parts(c2) if x not in parts(c)]
        more = [x for x in parts(c) if x not in parts(c2)]
        msg = '%s: rejection differs; missing: %s; additional: %s' % (what,
            '; '.join(show(x, limit=160) for x in lost) or 'none',
            '; '.join(show(x, limit=160) for x in more) or 'none')
    ctx.violation(rule, f.short, msg, place or f.where())
    return False
