"""C01: unincorporate is the inverse of incorporate.

Leaf models (classes whose incorporate writes their own attributes): the
location updates of both methods are composed symbolically; every location must
come back to its initial value, every per-row record must be dropped, counters
must vanish exactly when they return to zero.

Containers (Dim, View, State): removing a row must reach every place adding a
row reached.
"""
from terms import *         # noqa
from canon import decide
from algebra import normalise, iszero, lift_ites, choose, fname
from front import AnalysisBroken
from q import *             # noqa
import core

R_LEAF = 'C01.leaf-inverse'
R_CONT = 'C01.container-inverse'


def leaf_classes(ctx):
    """Classes that own statistics: incorporate writes self-rooted state and
    does not delegate to sub-models."""
    out = []
    for c in ctx.ix.all_classes():
        i, u = c.lookup('incorporate'), c.lookup('unincorporate')
        if i is None or u is None or c.module.name.startswith('cgpm.venture'):
            continue
        if i.cls is not c and u.cls is not c:
            continue
        if c.name == 'Engine':
            continue
        s = ctx.summ(i, c)
        w = [e for e in s.events if e.kind == 'write' and root(e.loc) is SELF]
        if not w:
            continue
        if [e for e in calls(s, 'incorporate') if e.recv is not None
                and e.recv is not SELF]:
            continue
        out.append((c, i, u, s))
    return out


class Effects(object):
    def __init__(self, s, ctx):
        self.cells = {}      # loc -> final value
        self.dels = {}       # (container, idx) -> guard term
        self.opaque = []
        heap = s.end.heap if s.end is not None else {}
        for e in s.events:
            if e.kind != 'write' or root(e.loc) is not SELF:
                continue
            if e.op == '=':
                self.cells[e.loc] = heap.get(e.loc, e.value)
            elif e.op in ('pop', 'delitem', 'del', 'remove', 'discard'):
                k = e.args[0] if e.args else None
                if isinstance(k, T):
                    prev = self.dels.get((e.loc, k), FALSE)
                    self.dels[(e.loc, k)] = or_(prev, and_(*e.guard))
                else:
                    self.opaque.append(e)
            elif e.op == 'add' and e.args and isinstance(e.args[0], T):
                self.cells[mk('item', e.loc, e.args[0])] = mk('member')
            else:
                self.opaque.append(e)


def leaf(ctx, c, inc, un, s_inc):
    name = c.name
    s_un = ctx.summ(un, c)
    where = un.where()
    if s_inc.end is None or s_un.end is None:
        raise AnalysisBroken('%s: incorporate/unincorporate never return'
            % name)
    I, U = Effects(s_inc, ctx), Effects(s_un, ctx)
    rowid = mk('param', 'rowid')
    if I.opaque or U.opaque:
        e = (I.opaque or U.opaque)[0]
        ctx.violation(R_LEAF, name, 'update %s of %s has no inverse' % (e.op,
            show(e.loc, limit=80)), where)
        return
    # Per-row records.
    rec = {}
    for l, v in list(I.cells.items()):
        if l.op == 'item' and l.a[1] is rowid:
            rec[l.a[0]] = v
    mp = {}
    for cont, v in rec.items():
        mp[mk('popped', cont, rowid)] = v
        mp[mk('item', cont, rowid)] = v
    facts_un = {mk('in', rowid, cont): TRUE for cont in rec}
    bad = []
    for cont in rec:
        g = U.dels.get((cont, rowid))
        if g is None:
            bad.append('%s keeps the removed row' % show(cont, limit=60))
        else:
            g = subst(g, facts_un)
            if g is not TRUE and not pure_validation(g, rec):
                bad.append('%s drops the row only if %s' % (
                    show(cont, limit=60), show(g, limit=80)))
    for (cont, k), g in U.dels.items():
        if k is rowid and cont not in rec:
            bad.append('%s[rowid] is dropped but never recorded' %
                show(cont, limit=60))
    # Scalars and counters.
    scal_inc = {l: v for l, v in I.cells.items()
        if not (l.op == 'item' and l.a[0] in rec)}
    scal_un = {l: v for l, v in U.cells.items()}
    done = set()
    for l, v in scal_un.items():
        for (cont, k), g in U.dels.items():
            if l.op == 'item' and l.a == (cont, k):
                v = choose(v, g, False)
        v2 = subst(v, mp)
        l2 = subst(l, mp)
        li = None
        for x in scal_inc:
            if x is l2:
                li = x
        if li is None:
            bad.append('%s changes on removal only' % show(l, limit=60))
            continue
        done.add(li)
        vi = scal_inc[li]
        after = subst(v2, {li: vi})
        if li.op == 'item':
            cont, idx = li.a
            res = counter(after, li, cont, idx, U, mp, vi)
            if res:
                bad.append(res)
        else:
            diff = sub(after, li)
            for conds, leafv in lift_ites(normalise(diff)):
                if not iszero(leafv):
                    bad.append('%s is left changed by %s' % (
                        show(li, limit=60), show(leafv, limit=120)))
                    break
    for l in scal_inc:
        if l not in done:
            # Dropped wholesale?
            if l.op == 'item' and any(k is not rowid and
                    subst(mk('item', cont, k), mp) is l
                    for (cont, k) in U.dels):
                continue
            if l.op == 'item' and always_same_rhs(scal_inc[l], l):
                continue
            bad.append('%s is not restored' % show(l, limit=60))
    if bad:
        ctx.violation(R_LEAF, name, '; '.join(sorted(bad)), where)
    else:
        ctx.ok(R_LEAF, name)


def always_same_rhs(v, l):
    return v is l


def pure_validation(g, rec):
    """Guard made of membership/validation of the row only."""
    return all(y.op in ('in', 'and', 'or', 'not', 'param', 'attr', 'const',
        'eq', 'lt', 'le', 'num') for y in subterms(g))


def counter(after, li, cont, idx, U, mp, vi):
    """Composed value of a counter cell."""
    inkey = mk('in', idx, cont)
    present = subst(after, {inkey: TRUE})
    gated = any(y is inkey for y in subterms(vi)) or any(
        y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'get'
        for y in subterms(vi))
    for conds, leafv in lift_ites(normalise(sub(present, li))):
        if not iszero(leafv):
            return '%s is left changed by %s' % (show(li, limit=60),
                show(leafv, limit=120))
    dels = {subst(k, mp): g for (c, k), g in U.dels.items() if c is cont}
    if gated:
        absent = normalise(subst(after, {inkey: FALSE}))
        if not iszero(absent):
            return 'a fresh %s does not return to zero' % show(li, limit=60)
        g = dels.get(idx)
        if g is None:
            return 'an emptied entry of %s is kept' % show(cont, limit=60)
        g = subst(subst(g, mp), {li: vi})
        ga = subst(g, {inkey: FALSE})
        if normalise(ga) is not TRUE:
            return 'an emptied entry of %s is kept when %s' % (
                show(cont, limit=60), show(not_(ga), limit=80))
        gp = normalise(subst(g, {inkey: TRUE}))
        zero = normalise(cmp_('eq', li, const(0)))
        le0 = normalise(cmp_('le', li, const(0)))
        lt1 = normalise(cmp_('lt', li, const(1)))
        if gp not in (zero, FALSE, le0, lt1, not_(li)) and not (
                gp.op in ('eq', 'le') and any(iszero(normalise(sub(sub(p, q),
                li))) for p, q in (gp.a, gp.a[::-1])[:2 if gp.op == 'eq'
                else 1])):
            return 'an entry of %s still in use is dropped when %s' % (
                show(cont, limit=60), show(gp, limit=80))
    elif dels:
        return 'preallocated entries of %s are dropped' % show(cont, limit=60)
    return None


def sub_calls(s, name, outer):
    """Delegated calls of `name` on other objects, outermost level."""
    out = []
    for e in calls(s, name):
        if e.recv is None or e.recv is SELF:
            continue
        out.append(e)
    return out


def fans(evs):
    return {fan(e) for e in evs}


def dim_rule(ctx):
    c = ctx.ix.cls('cgpm.mixtures.dim.Dim')
    inc, un = c.lookup('incorporate'), c.lookup('unincorporate')
    si, su = ctx.summ(inc, c), ctx.summ(un, c)
    I, U = Effects(si, ctx), Effects(su, ctx)
    rowid = mk('param', 'rowid')
    rec = {l.a[0]: v for l, v in I.cells.items()
        if l.op == 'item' and l.a[1] is rowid}
    bad = []
    if not rec:
        raise AnalysisBroken('Dim.incorporate records no row')
    for cont in rec:
        g = U.dels.get((cont, rowid))
        if g is None:
            bad.append('%s keeps the removed row' % show(cont))
            continue
        g2 = subst(g, {mk('in', rowid, x): (TRUE if x is cont else FALSE)
            for x in rec})
        if g2 is not TRUE:
            bad.append('%s drops the row only if %s' % (show(cont),
                show(g2, limit=80)))
    # Membership of the row decides which cluster forgets it.
    added = [e for e in calls(si, 'incorporate') if not e.inlined]
    gone = [e for e in calls(su, 'unincorporate') if not e.inlined]
    if not added or not gone:
        bad.append('the cluster model is not told about the row')
    ga = or_(*[and_(*e.guard) for e in added])
    owner = None
    for e in si.events:
        if e.kind == 'write' and e.loc.op == 'item' and \
                e.loc.a[1] is rowid and and_(*e.guard) is not None:
            if covers(added, e):
                owner = e
    if owner is None:
        bad.append('rows given to a cluster model are not recorded')
    else:
        cont = owner.loc.a[0]
        k = owner.value
        for e in added:
            okr = e.recv.op == 'item' and e.recv.a[1] is k or \
                stored_as(si, e.recv, k)
            if not okr:
                bad.append('row handed to %s but recorded under %s' % (
                    show(e.recv, limit=80), show(k, limit=80)))
            if rowarg(e) is not rowid:
                bad.append('cluster model receives another row')
        want = mk('item', cont, rowid)
        for e in gone:
            if not (e.recv.op == 'item' and e.recv.a[1] is want):
                bad.append('row removed from %s' % show(e.recv, limit=80))
            if rowarg(e) is not rowid:
                bad.append('cluster model forgets another row')
            g = subst(and_(*e.guard), {mk('in', rowid, x):
                (TRUE if x is cont else FALSE) for x in rec})
            if g is not TRUE:
                bad.append('cluster model forgets the row only if %s' %
                    show(g, limit=80))
    report(ctx, 'Dim', bad, un)


def covers(added, w):
    """Union of the guards of the sub-model calls equals the record's."""
    gw = and_(*w.guard)
    return all(set(w.guard) <= set(e.guard) or decide(ite(and_(*e.guard),
        ite(gw, TRUE, FALSE), TRUE)) is TRUE for e in added)


def stored_as(s, recv, k):
    """recv was stored under key k of a container beforehand."""
    for e in s.events:
        if e.kind == 'write' and e.op == '=' and e.value is not None and \
                e.loc.op == 'item' and e.loc.a[1] is k:
            v = e.value
            if v is not recv:
                # The value under the path condition of the write.
                mp = {}
                for g in e.guard:
                    for a in (g.a if g.op == 'and' else (g,)):
                        mp[a] = TRUE
                        mp[not_(a)] = FALSE
                v = subst(v, mp)
            if v is recv:
                return True
    return False


def report(ctx, name, bad, un):
    if bad:
        ctx.violation(R_CONT, name, '; '.join(sorted(set(bad))), un.where())
    else:
        ctx.ok(R_CONT, name)


def container(ctx, qual, inner):
    c = ctx.ix.cls(qual)
    inc, un = c.lookup('incorporate'), c.lookup('unincorporate')
    inl = core.boundary(*inner)
    si, su = ctx.summ(inc, c, inline=inl), ctx.summ(un, c, inline=inl)
    rowid = mk('param', 'rowid')
    bad = []
    a = [e for e in calls(si, 'incorporate') if e.recv is not SELF]
    g = [e for e in calls(su, 'unincorporate') if e.recv is not SELF]
    if not a:
        raise AnalysisBroken('%s.incorporate delegates to nothing' % c.name)
    fa, fg = fans(a), fans(g)
    for f in fa:
        if f not in fg and ('all',) + f[1:2] not in fg:
            bad.append('%s receives the row but never forgets it' %
                show(f[1], limit=60))
    for f in fg:
        if f not in fa and not any(x[:2] == f[:2] for x in fa):
            bad.append('%s forgets a row it is never given' %
                show(f[1], limit=60))
    for e in g:
        if rowarg(e) is not rowid:
            bad.append('another row is forgotten')
    # Cells of the shared dataset.
    app = {fan(e, e.loc) for e in si.events if e.kind == 'write' and
        e.op == 'append' and root(e.loc) is SELF}
    pop = {fan(e, e.loc) for e in su.events if e.kind == 'write' and
        e.op == 'pop' and root(e.loc) is SELF and
        not any(isinstance(x, T) for x in e.args or ())}
    pop |= {fan(e, e.loc) for e in su.events if e.kind == 'write' and
        e.op in ('delitem', 'pop') and root(e.loc) is SELF and e.args and
        e.args[0] in (const(-1), rowid)}
    for e in app - pop:
        bad.append('cells appended to %s are not removed' %
            show(e[1], limit=60))
    for e in [p for p in pop - app if app]:
        bad.append('cells of %s are removed but never appended' %
            show(e[1], limit=60))
    return c, si, su, bad, un


def run(ctx):
    ctx.rule(R_LEAF, 'composition of the location updates of incorporate and '
        'unincorporate is the identity; per-row records are dropped; '
        'counters disappear exactly at zero')
    ctx.rule(R_CONT, 'every sub-model and dataset column told about a row by '
        'incorporate is told to forget it by unincorporate')
    n = 0
    for c, i, u, s in leaf_classes(ctx):
        if c.name in ('Dim', 'View', 'State'):
            continue
        leaf(ctx, c, i, u, s)
        n += 1
    ctx.require(n, 12, 'leaf models')
    dim_rule(ctx)
    DIMIO = ('Dim.incorporate', 'Dim.unincorporate', 'View.transition_rows')
    c, si, su, bad, un = container(ctx, 'cgpm.mixtures.view.View', DIMIO)
    view_extra(ctx, si, su, bad)
    report(ctx, 'View', bad, un)
    c, si, su, bad, un = container(ctx, 'cgpm.crosscat.state.State',
        ('View.incorporate', 'View.unincorporate', '_check_partitions'))
    report(ctx, 'State', bad, un)


def view_extra(ctx, si, su, bad):
    """Emptied clusters disappear from every dimension."""
    rowid = mk('param', 'rowid')
    drops = [e for e in su.events if e.kind == 'write' and
        e.op in ('delitem', 'pop') and root(e.loc) is SELF and
        e.loc.op == 'attr' and e.loc.a[1] == 'clusters']
    if not drops:
        bad.append('an emptied cluster stays in the dimensions')
    crp_un = [e for e in calls(su, 'unincorporate')
        if fan(e)[0] == 'one' and e.recv is not SELF]
    for e in drops:
        f = fan(e, e.loc.a[0])
        if f[0] == 'one' or f[0] == 'some' and not all(
                guard_about(g, e.args[0]) for g in f[2]):
            bad.append('an emptied cluster is dropped from %s only' %
                show(f[1], limit=60))
        if crp_un and e.seq < crp_un[0].seq:
            bad.append('clusters are dropped before the row leaves')
        if not any(emptied(g, e.args[0]) for g in e.guard):
            bad.append('a cluster is dropped without being empty')


def guard_about(g, k):
    return contains(g, k)


def emptied(g, k):
    """Guard says k is no longer among the counts (or counts zero)."""
    if g.op == 'not' and g.a[0].op == 'in' and g.a[0].a[0] is k:
        return True
    if g.op in ('eq', 'le', 'lt') and contains(g, k):
        return True
    if g.op == 'and':
        return any(emptied(x, k) for x in g.a)
    return False
