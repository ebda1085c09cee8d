"""What a method does, as a canonical multiset of guarded effects.

An effect is a write to a location, a call that updates something, or a
rejection.  Receivers carry the updates applied to them earlier (interp's
`track`), so the order of updates of one object, and of updates and reads of
it, is part of the effect; updates of unrelated objects commute.  Two effects
of one kind on the same target under exclusive conditions are one effect with
a conditional argument."""
from collections import Counter

import core
import interp
from canon import Canon, assume, decide, last, conditions, exists, tv, \
    simplify_or, exc
from refspec import *       # noqa
from terms import *         # noqa

UPDATES = {
    'incorporate', 'unincorporate', 'incorporate_dim', 'unincorporate_dim',
    'transition', 'transition_params', 'transition_hypers',
    'transition_hyper_grids', 'transition_rows', 'transition_dim_hypers',
    'transition_dim_params', 'transition_dim_grids', 'transition_dims',
    'transition_crp_alpha', 'transition_view_alphas', 'transition_view_rows',
    'set_hypers', 'set_params', 'force_cell', 'update_cctype',
    'compose_cgpm', 'decompose_cgpm', 'set_outputs', '_update_is_composite',
    '_delete_view', '_append_view', '_migrate_dim', '_migrate_row',
    '_gibbs_transition_dim', '_gibbs_transition_row', '_bulk_incorporate',
    '_increment_iterations', '_increment_diagnostics', '_transition_generic',
    '_update_diagnostics', '_progress', 'incorporate_bulk',
    'force_cell_bulk', 'transition_lovecat', 'transition_loom',
    'transition_foreign', 'shuffle', 'close', 'start', 'join', 'terminate',
    'send', 'put', 'recv', 'seed', 'set_state', 'fit', 'dump', 'write',
    'update_state', '_update_state', '_set_mvn_params', 'append',
    'infer', 'infer_one', 'writerow', 'writerows', 'to_csv', 'ingest',
    'force_ascii', 'transform', 'transition_engine', '_seed_states',
    'add_state', 'drop_state', 'alter', '_write_dataset', '_write_schema',
    '_forget_cell', '_observe_cell',
}


class Effects(object):
    def __init__(self, ctx, inline=None, updates=None, ignore=(),
            rewrite=None, ordered=True, values=True):
        self.ctx = ctx
        self.inline = inline
        self.updates = set(UPDATES if updates is None else updates)
        self.ignore = set(ignore)
        self.rewrite = rewrite
        self.ordered = ordered
        self.values = values

    def summ(self, f, cls=None, args=None, ptypes=None, params=None):
        an = interp.Analyzer(self.ctx.ix, self.ctx.types,
            self.inline or core.default_inline, track=self.updates)
        skip = 1 if (cls is not None) else 0
        a = {n: mk('param', '#%d' % i) for i, n in enumerate(
            positional(f, skip))}
        names = positional(f, skip)
        for k, v in (args or {}).items():
            if isinstance(k, int):
                k = names[k] if k < len(names) else None
            if k is not None:
                a[k] = v
        pt = dict(ptypes or {})
        if cls is not None:
            pt['self'] = cls
            a['self'] = mk('param', 'self')
        kw = {}
        if f.cls is not None:
            kw['cls'] = cls
        return self.ctx.summ(f, an=an, args=a, ptypes=pt, **kw)

    def canon(self):
        return Canon(ordered=self.ordered, rewrite=self.rewrite)

    def of(self, s, unless=FALSE):
        """Counter of canonical effects."""
        out = []
        for e in s.events:
            t = None
            if e.kind == 'write':
                a = tuple(x for x in (e.args or ()) if isinstance(x, T))
                if e.op == '=':
                    t = (('write', e.loc), e.value)
                elif e.op == 'pop' and a:
                    t = (('delitem', e.loc), mk('tuple', a[0]))
                else:
                    t = ((e.op, e.loc), mk('tuple', *a))
            elif e.kind == 'call' and not e.inlined:
                nm = (e.name or '').split('@')[0]
                if nm in self.ignore or nm not in self.updates:
                    continue
                r = e.recv if e.recv is not None else NONE
                a = list(e.args)
                if e.fn.op == 'bound' and a and a[0] is r:
                    a = a[1:]
                v = mk('tuple', *(a + [mk('kw', const(k), x)
                    for k, x in sorted(e.kw.items())]))
                t = (('call:' + nm, r), v)
            if t is None:
                continue
            (k, loc), v = t
            loc, v = whole(loc), whole(v)
            gens = tuple((fr[1] if fr[1] is not None else mk('while'), ())
                for fr in e.ctx)
            v = where(v, s.an.turns, loc, *e.guard)
            out.append((k, loc, v, and_(not_(unless), *e.guard), gens))
        return self.fold(out)

    def fold(self, evs):
        cn = self.canon()
        groups = {}
        for k, loc, v, g, gens in evs:
            if gens:
                # Loop conditions stay with the loop.
                gens = gens[:-1] + ((gens[-1][0], (g,)
                    if g is not TRUE else ()),)
                t = cn(mk('comp', 'eff', mk('tuple', mk('glob', k), loc, v),
                    gens))
                key = (k, self.dec(t))
                groups.setdefault(key, []).append((TRUE, NONE))
            else:
                key = (k, self.dec(cn(loc)))
                groups.setdefault(key, []).append((tv(cn(g)), cn(v)))
        out = Counter()
        for (k, loc), es in groups.items():
            merged = []
            for g, v in es:
                for i, (g2, v2) in enumerate(merged):
                    if booltree(and_(g, g2)) is FALSE:
                        merged[i] = (or_(g2, g), ite(g2, v2, v))
                        break
                    if k == 'write' and loc.op == 'item' and \
                            i == len(merged) - 1:
                        # What is written later is what remains.
                        merged[i] = (or_(g2, g), ite(g, v, v2))
                        break
                else:
                    merged.append((g, v))
            for g, v in merged:
                g = booltree(self.dec(g))
                v = self.dec(self.under(v, g))
                out[(k, loc, v, g)] += 1
        return out

    def under(self, v, g):
        """v given that g holds."""
        t = self.dec(ite(g, v, NONE))
        return t if g is not TRUE else v

    def dec(self, t):
        cn = self.canon()
        return decide(bools(cn(decide(t, lift=True))), lift=True)


TRUTH = {'lt', 'le', 'eq', 'is', 'in', 'anyq', 'allq', 'isinstance', 'exc'}


def truth(t):
    """Boolean-valued whatever its parts are."""
    if t.op in ('and', 'or', 'not'):
        return all(truth(x) for x in t.a) or t.op == 'not'
    if t.op == 'ite':
        return truth(t.a[1]) and truth(t.a[2])
    if t.op == 'call':
        return last(t.a[0]) in ('isnan', 'is_conditional', 'is_collapsed',
            'hypothetical', 'isinf', 'isinstance')
    return t.op in TRUTH or t in (TRUE, FALSE)


def booltree(c):
    """Conditions as reduced decision trees."""
    if c in (TRUE, FALSE):
        return c
    return subst(decide(mk('ite', c, YES, NO)), {YES: TRUE, NO: FALSE})


YES, NO = const('true'), const('false')


def bools(t):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ('const', 'num', 'poly'):
            return x
        if x in memo:
            return memo[x]
        if x.op in ('comp', 'anyq', 'allq'):
            i = 2 if x.op == 'comp' else 1
            gens = []
            for s, cs in x.a[i]:
                c = booltree(go(and_(*cs)))
                gens.append((go(s), (c,) if c is not TRUE else ()))
            r = mk(x.op, *(tuple(go(y) for y in x.a[:i]) + (tuple(gens),)))
        elif x.op in ('and', 'or', 'ite') and truth(x):
            r = booltree(mk(x.op, *go(x.a)))
        else:
            a = go(x.a)
            r = x if a == x.a else mk(x.op, *a)
        memo[x] = r
        return r
    return go(t)


def whole(t):
    """An object some attribute of which was updated is that object."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ('const', 'num'):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'attr' and x.a[0].op == 'setattr':
            o, a, v = x.a[0].a
            r = go(v) if a == x.a[1] else go(mk('attr', o, x.a[1]))
        elif x.op == 'setattr':
            r = go(x.a[0])
        elif x.op == 'poly':
            r = subst(x, {y: go(y) for y in subterms(x)
                if y.op == 'setattr'})
        else:
            a = go(x.a)
            r = x if a == x.a else mk(x.op, *a)
        memo[x] = r
        return r
    return go(t) if contains_any(t, lambda y: y.op == 'setattr') else t


def text(e, limit=170):
    k, loc, v, g = e
    s = '%s %s' % (k, show(loc, limit=limit))
    if v is not NONE:
        s += ' <- %s' % show(v, limit=limit)
    if g is not TRUE:
        s += ' when %s' % show(g, limit=limit)
    return s


def differ(a, b, depth=0):
    """Smallest place where two terms differ: (found, expected)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            d = [(x, y) for x, y in zip(a, b) if x is not y and x != y]
            if len(d) == 1:
                return differ(d[0][0], d[0][1], depth)
        return a, b
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and \
            len(a.a) == len(b.a) and a.op not in ('poly', 'num'):
        d = [(x, y) for x, y in zip(a.a, b.a) if x is not y and x != y]
        if len(d) == 1:
            x, y = differ(d[0][0], d[0][1], depth)
            if isinstance(x, T) and isinstance(y, T):
                return x, y
            return a, b
        if a.op in ('call', 'ite', 'comp', 'tuple') and len(d) > 1:
            return a, b
    return a, b


def first_diff(x, y):
    for a, b in zip(x, y):
        if a is not b and a != b:
            return differ(a, b) if isinstance(a, T) and isinstance(b, T) \
                else (a, b)
    return x, y


def brief(x, limit=240):
    return show(x, limit=limit) if isinstance(x, T) else str(x)[:limit]


def alike(xs, ys):
    """The same effects, up to the order in which their cases are split."""
    lost, more = list((ys - xs).elements()), list((xs - ys).elements())
    if len(lost) != len(more) or len(lost) > 6:
        return False
    for k, loc, v, g in more:
        for y in lost:
            if y[0] == k and y[1] is loc and equal(g, y[3]) and equal(
                    ite(g, v, NONE), ite(g, y[2], NONE)):
                lost.remove(y)
                break
        else:
            return False
    return True


def equal(x, y, depth=0, budget=None):
    """Equal in every case of the tests they split on."""
    if x is y:
        return True
    if budget is None:
        budget = [300]
        x, y = norm_(x), norm_(y)
        if x is y:
            return True
    budget[0] -= 1
    if depth > 14 or budget[0] <= 0:
        return False
    for t in (x, y):
        if t.op == 'ite':
            for a in atoms_of(t.a[0]):
                return all(equal(norm_(assume(x, a, b)), norm_(assume(y, a,
                    b)), depth + 1, budget)
                    for b in (True, False))
        if t.op in ('and', 'or', 'not'):
            for a in atoms_of(t):
                return all(equal(norm_(assume(x, a, b)), norm_(assume(y, a,
                    b)), depth + 1, budget)
                    for b in (True, False))
    if x.op != y.op or x.op in ('const', 'num', 'poly', 'param', 'comp',
            'anyq', 'allq') or len(x.a) != len(y.a):
        return False

    def each(p, q):
        if p is q or p == q:
            return True
        if isinstance(p, tuple) and isinstance(q, tuple):
            return len(p) == len(q) and all(each(u, v) for u, v in zip(p, q))
        if isinstance(p, T) and isinstance(q, T):
            return equal(p, q, depth + 1, budget)
        return False
    return each(x.a, y.a)


def norm_(t):
    return bools(decide(t, lift=True)) if isinstance(t, T) else t


def atoms_of(c):
    if c.op in ('and', 'or', 'not', 'ite'):
        for x in c.a:
            for a in atoms_of(x):
                yield a
    elif c not in (TRUE, FALSE) and c.op not in ('const', 'num'):
        yield c


def agree(ctx, rule, f, refs, ref, what, E, cls=None, args=None,
        result=True, rejects=True, where=None, construct=None, ptypes=None,
        fresh=False):
    """One obligation: f has the effects (result, rejections) of one of the
    reference variants."""
    construct = construct or f.short
    s = E.summ(f, cls, args, ptypes)
    mine, res, rej = effects(E, s, fresh), value(E, s, fresh), reject(E, s)
    first = None
    for n in refs:
        s2 = E.summ(ref.fn(n), cls, args, ptypes)
        w, r2, c2 = effects(E, s2, fresh), value(E, s2, fresh), reject(E,
            s2)
        if mine == w and (not result or res is r2) and (
                not rejects or rej is c2) or alike(mine, w) and (
                not result or equal(res, r2)) and (not rejects or equal(rej,
                c2)):
            ctx.ok(rule, construct)
            return True
        if first is None:
            first = (w, r2, c2)
    w, r2, c2 = first
    lost, more = w - mine, mine - w
    if lost and more and len(lost) == len(more) == 1:
        (x, y), = zip(more, lost)
        msg = '%s: does %s, expected %s; difference: %s, expected %s' % (
            (what, text(x), text(y)) + tuple(brief(z) for z in first_diff(
                x, y)))
    elif lost or more:
        msg = '%s: missing: %s; unexpected: %s' % (what,
            '; '.join(sorted(text(e) for e in lost)) or 'none',
            '; '.join(sorted(text(e) for e in more)) or 'none')
    elif result and res is not r2:
        x, y = differ(res, r2)
        msg = '%s: returns %s, expected %s' % (what, brief(x), brief(y))
    else:
        x, y = differ(rej, c2)
        msg = '%s: rejects when %s, expected %s' % (what, brief(x), brief(y))
    ctx.violation(rule, construct, msg, where or f.where())
    return False


def effects(E, s, fresh):
    """With `fresh`, only of the calls that succeed: a constructor that
    rejects its arguments leaves nothing behind."""
    if fresh == 'all':
        return E.of(s, refuse(E, s))
    return E.of(s, conditions(s, E.canon()) if fresh else FALSE)


def value(E, s, fresh=False):
    """What is returned where nothing is rejected."""
    r = where(s.result if s.result is not None else NONE, s.an.turns)
    c = E.canon()
    g = refuse(E, s) if fresh == 'all' else conditions(s, c)
    v = E.dec(c(r))
    if g is FALSE or v is NONE:
        return v
    return E.dec(ite(g, NONE, v))


def reject(E, s):
    return booltree(E.dec(conditions(s, E.canon())))


def refuse(E, s, but=()):
    """Condition under which a raise is reached that nothing in the operation
    catches, or an assertion fails."""
    cn = E.canon()
    alts = []
    for e in s.events:
        if e.kind == 'raise' and not caught(e) and exc(e) not in but:
            alts.append(cn(exists(e)))
        elif e.kind == 'assert' and not caught(e, 'AssertionError'):
            alts.append(cn(exists(e, (not_(e.value),))))
    return booltree(quants(E.dec(simplify_or(alts))))


def caught(e, name=None):
    name = name or exc(e)
    for fr in e.tryctx or ():
        if fr[0] == 'try':
            for h in fr[3]:
                if h == '*' or name in [x.strip(' ()') for x in h.split(',')
                        ] or 'Exception' in h:
                    return True
    return False


def quants(t):
    """Quantifiers as `exists` over reduced trees."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ('const', 'num', 'poly'):
            return x
        if x not in memo:
            a = go(x.a)
            if x.op in ('anyq', 'allq'):
                b = a[0] if x.op == 'anyq' else not_(a[0])
                b = booltree(b)
                r = b if b is FALSE else mk('anyq', b, *a[1:])
                memo[x] = r if x.op == 'anyq' else not_(r)
            else:
                memo[x] = x if a == x.a else rebuild(x.op, a)
        return memo[x]
    return go(t)
