"""C18: validation of dependence constraints and partition helpers."""
from refspec import *        # noqa
from canon import Canon, call1, last, strip, exists, simplify_or, conditions, \
    bsimp
from rules.graph import boolify
import core

REF = '''
import itertools as it

def customers(Cd, Ci, Ri, Rd, a, b):
    if (a, b) in Ci or (b, a) in Ci:
        return False
    if (a in Rd or a in Ri) and (b in Rd or b in Ri):
        return check_compatible_constraints(
            Rd.get(a, []), Ri.get(a, []), Rd.get(b, []), Ri.get(b, []))
    return True

def partition(Zv, Cd, Ci, Rd, Ri):
    for block in Cd:
        for b in block:
            if Zv[block[0]] != Zv[b]:
                return False
    for block in Cd:
        for a, b in it.combinations(block, 2):
            if not check_compatible_customers(Cd, Ci, Ri, Rd, a, b):
                return False
    for a, b in Ci:
        if Zv[a] == Zv[b]:
            return False
    return True

def partition_list(Z, L):
    result = {}
    for l in L:
        if Z[l] in result:
            result[Z[l]].append(l)
        else:
            result[Z[l]] = [l]
    return result

def partition_dict(Z, L):
    result = {}
    for l in L:
        if Z[l] in result:
            result[Z[l]].append((l, L[l]))
        else:
            result[Z[l]] = [(l, L[l])]
    return {k: dict(v) for k, v in result.items()}

def partition_dict_own(Z, L):
    result = {}
    for l in L:
        if Z[l] not in result:
            result[Z[l]] = {}
        result[Z[l]][l] = L[l]
    return result

def partition_dict_new(Z, L):
    result = {}
    for l in L:
        if Z[l] in result:
            result[Z[l]][l] = L[l]
        else:
            result[Z[l]] = {l: L[l]}
    return result

def partition_dict_set(Z, L):
    result = {}
    for l in L:
        result.setdefault(Z[l], {})[l] = L[l]
    return result
'''
V = 'cgpm.utils.validation.'
VN = 'validate_dependency_constraints'


def norm(t):
    """Spellings that do not matter here."""
    r = boolify(t)
    if r is not None:
        return r
    if t.op == 'ite' and t.a[2].op in ('dict', 'tuple', 'setdisp') and \
            not t.a[2].a:
        return mk('ite', t.a[0], t.a[1], mk('list'))
    if t.op == 'ite' and _bool(t.a[1]) and _bool(t.a[2]):
        return or_(and_(t.a[0], t.a[1]), and_(not_(t.a[0]), t.a[2]))
    # Opaque helper functions compare by name.
    if t.op in ('func', 'glob') and str(t.a[0]).split('.')[-1] in (
            'check_compatible_constraints', 'check_compatible_customers'):
        return mk('helper', str(t.a[0]).split('.')[-1])
    return None


def _bool(t):
    return t.op in ('not', 'and', 'or', 'lt', 'le', 'eq', 'is', 'in', 'anyq',
        'allq', 'anypair', 'allpair') or t is TRUE or t is FALSE or \
        t.op == 'call' and t.a[0].op == 'helper'


def absorb(t):
    return bsimp(t)


def run(ctx):
    fn = lambda n: ctx.ix.fn(V + n)
    ref = Ref(ctx, REF, 'valid')
    columns(ctx)
    ctx.rule('group', 'partitioning keeps every entry, under the group '
        'assigned to it, with its value')
    same(ctx, 'group', fn('partition_list'), ['partition_list'], ref,
        'partition of a list')
    same(ctx, 'group', fn('partition_dict'), ['partition_dict',
        'partition_dict_own', 'partition_dict_new', 'partition_dict_set'], ref,
        'partition of a mapping')
    query(ctx, fn('partition_query_evidence'))


def columns(ctx):
    """Checks of constraints on columns."""
    fn = lambda n: ctx.ix.fn(V + n)
    ref = Ref(ctx, REF, 'valid')
    dependency(ctx, fn(VN))
    pairs(ctx, fn('check_compatible_constraints'))
    ctx.rule('compatible-customers', 'two columns may be dependent exactly '
        'when not declared independent in either order and, if both carry '
        'row constraints, those are mutually compatible')
    same(ctx, 'compatible-customers', fn('check_compatible_customers'),
        ['customers'], ref, 'compatibility of two columns', rewrite=norm,
        inline=core.boundary('check_compatible_constraints'), post=absorb)
    ctx.rule('partition-check', 'an outer partition is valid exactly when '
        'every dependent block shares one group, its members are pairwise '
        'compatible and every independent pair is separated')
    partition(ctx, fn('validate_crp_constrained_partition'), ref)
    inputs(ctx, fn('validate_crp_constrained_input'))


PN = [mk('param', '#%d' % i) for i in range(5)]


def dependency(ctx, f):
    ctx.rule('dependency', 'constraints are rejected exactly for a singleton '
        'block, an index out of range, a column in two blocks, an '
        'independent pair inside a block, an entry that is not a pair, and '
        'a column independent of itself')
    N, Cd, Ci = PN[:3]
    none = cmp_('is', N, NONE)
    r, c, s = form(ctx, f, rewrite=norm)
    known = Canon(rewrite=norm)(subst(c, {none: FALSE}))
    alts = [Canon(rewrite=norm)(x) for x in parts(known)]
    alts = parts(simplify_or(alts))
    alts = parts(Canon(rewrite=norm)(or_(*alts)))
    B, P = mk('elem', Cd, 0), mk('elem', Ci, 0)
    col = mk('elem', B, 0)
    ln = lambda x: mk('call', mk('glob', 'len'), (x,), ())
    it = lambda x, i: mk('item', x, const(i))
    un = lambda x, i: mk('unpack', x, i)
    q = lambda b, *g: mk('anyq', b, tuple((x, ()) for x in g))
    cn = Canon(rewrite=norm)
    want = {
        'a singleton block': [q(cmp_('eq', ln(B), const(1)), Cd),
            q(cmp_('lt', ln(B), const(2)), Cd),
            q(cmp_('le', ln(B), const(1)), Cd)],
        'a dependent column out of range': [q(cmp_('le', N, col), Cd, B),
            q(cmp_('le', N, mk('call', mk('glob', 'max'), (B,), ())), Cd)],
        'an independent pair inside a block': [
            q(and_(cmp_('in', it(P, 0), B), cmp_('in', it(P, 1), B)), Cd,
                Ci),
            q(and_(cmp_('in', it(P, 0), B), cmp_('in', it(P, 1), B)), Ci,
                Cd),
            q(mk('allq', cmp_('in', mk('elem', P, 0), B), ((P, ()),)), Cd,
                Ci)],
        'an entry that is not a pair': [
            q(not_(cmp_('eq', ln(P), const(2))), Ci)],
        'a column independent of itself': [
            q(cmp_('eq', it(P, 0), it(P, 1)), Ci)],
        'an independent column out of range (first)': [
            q(cmp_('le', N, it(P, 0)), Ci)],
        'an independent column out of range (second)': [
            q(cmp_('le', N, it(P, 1)), Ci)],
    }
    both = q(cmp_('le', N, mk('elem', P, 0)), Ci, P)
    both2 = q(cmp_('le', N, mk('call', mk('glob', 'max'), (P,), ())), Ci)
    unp = {un(P, 0): it(P, 0), un(P, 1): it(P, 1)}
    alts = [cn(subst(a, unp)) for a in alts]
    used = set()
    for name, forms in sorted(want.items()):
        forms = [cn(x) for x in forms]
        if 'independent column out' in name:
            forms += [cn(both), cn(both2)]
        hit = [a for a in alts if a in forms]
        used |= set(hit)
        ctx.check(bool(hit), 'dependency', name, '%s is not rejected as '
            'stated' % name, f.where())
    rest = [a for a in alts if a not in used]
    dup = [a for a in rest if _duplicate(a, Cd, col)]
    ctx.check(bool(dup), 'dependency', 'a column in two blocks',
        'a column listed twice is not rejected: %s' % '; '.join(
            show(a, limit=200) for a in rest), f.where())
    for a in rest:
        if a not in dup:
            ctx.violation('dependency', 'additional rejection',
                'constraints are also rejected when %s' % show(a, limit=200),
                f.where())
    # Without a number of columns nothing small is out of range.
    un_ = cn(subst(c, {none: TRUE}))
    for t in subterms(un_):
        if t.op == 'le' and t.a[0].op == 'num' and t.a[0].a[0] < 10 ** 6 and \
                contains(t.a[1], Cd if contains(t.a[1], Cd) else Ci) and \
                t.a[1].op in ('elem', 'item'):
            ctx.violation('dependency', 'unknown number of columns',
                'columns from %s are rejected when the number of columns is '
                'unknown' % show(t.a[0]), f.where())
    kinds = set(exc(e) for e in s.events if e.kind == 'raise')
    ctx.check(kinds <= {'ValueError'}, 'dependency', 'error type',
        'rejects with %s' % sorted(kinds), f.where())
    ctx.check(all(e.value is TRUE for e in s.events if e.kind == 'return'
        and e.fn is f) if _has(s, 'fn') else r is TRUE, 'dependency',
        'result', 'accepted constraints return %s' % show(r, limit=60),
        f.where())


def _has(s, a):
    return bool(s.events) and hasattr(s.events[0], a)


def _duplicate(a, Cd, col):
    """Some column was already counted in this or an earlier block."""
    if a.op != 'anyq':
        # len(all) != len(set(all))
        return a.op in ('not', 'lt') and contains_any(a, lambda t:
            t.op == 'comp' and t.a[0] == 'set') and contains(a, Cd)
    b = a.a[0]
    if b.op == 'in' and b.a[0] is col:
        return _acc(b.a[1], Cd)
    if b.op in ('lt', 'le') and len(b.a) == 2:
        lo, hi = b.a
        d = sub(hi, lo)
        cnt = [t for t in subterms(d) if t.op == 'ite' and
            t.a[0].op == 'in' and t.a[0].a[0] is col]
        if len(cnt) != 1:
            cnt = [t for t in subterms(d) if t.op == 'item' and
                t.a[0].op == 'phi']
            if len(cnt) != 1:
                return False
        c = cnt[0]
        if c.op == 'ite' and (c.a[2] is not const(0) or c.a[1] is not
                mk('item', c.a[0].a[1], col) or not _acc(c.a[0].a[1], Cd)):
            return False
        k = sub(d, c)
        return k is const(0) and b.op == 'lt' or \
            k is const(-1) and b.op == 'le'
    return False


def _acc(p, Cd):
    """Accumulator carried through all the blocks, initially empty."""
    n = 0
    while p.op == 'phi':
        p = p.a[2]
        n += 1
    return n >= 2 and p.op in ('dict', 'setdisp', 'list') and not p.a or \
        p.op == 'call' and last(p.a[0]) in ('defaultdict', 'Counter',
            'set') and n >= 2


def pairs(ctx, f):
    ctx.rule('cross-validate', 'two constraint sets are compatible exactly '
        'when the dependences of each validate against the independences of '
        'both')
    s = ctx.summ(f, inline=core.boundary(VN), args={n: p for n, p in
        zip(positional(f), PN)})
    Cd1, Ci1, Cd2, Ci2 = PN[:4]
    got = set()
    for e in s.events:
        if e.kind == 'call' and (e.name or '').split('@')[0].split('.')[-1] \
                == VN:
            a = list(e.args)
            kw = dict(e.kw or ())
            a += [kw[k] for k in ('N', 'Cd', 'Ci')[len(a):] if k in kw]
            ctx.check(len(a) == 3 and a[0] is NONE, 'cross-validate',
                'number of columns', 'the number of columns is taken to be '
                '%s' % (a and show(a[0], limit=40)), f.where())
            cond = [g for g in e.guard if g.op not in ('exc',)]
            ctx.check(not cond, 'cross-validate', 'always', 'a pair of '
                'constraint sets is checked only when %s'
                % show(and_(*cond), limit=80), f.where())
            if len(a) == 3:
                got.add((a[1], a[2]))
    for x, d in ((Cd1, 'first'), (Cd2, 'second')):
        for y, i in ((Ci1, 'first'), (Ci2, 'second')):
            ctx.check((x, y) in got, 'cross-validate', '%s dependences, %s '
                'independences' % (d, i), 'the dependences of the %s set are '
                'not validated against the independences of the %s'
                % (d, i), f.where())
    rets = [(e.value, any(g.op == 'exc' for g in e.guard))
        for e in s.events if e.kind == 'return']
    ctx.check(all(v is (FALSE if x else TRUE) for v, x in rets) and
        {x for _v, x in rets} == {True, False}, 'cross-validate', 'result',
        'the verdict is not "no violation was found": %s' % [
            (show(v), x) for v, x in rets], f.where())


def flatrest(t):
    """Unpacked pairs and positions of pairs are the same."""
    if t.op == 'unpack' and isinstance(t.a[1], int):
        return mk('item', t.a[0], const(t.a[1]))
    return norm(t)


def partition(ctx, f, ref):
    bd = core.boundary('check_compatible_customers')
    outs = []
    for g in (f, ref.fn('partition')):
        names = positional(g)
        s = ctx.summ(g, inline=bd, args={n: p for n, p in zip(names, PN)})
        cn = Canon(rewrite=flatrest)
        res = []
        r = s.result
        if r is not None and _bool(cn(r)) and r.op not in ('const',):
            res = parts(not_(absorb(cn(r))))
        falses = []
        for e in s.events:
            if e.kind == 'return' and e.value is FALSE:
                falses.append(cn(exists(e)))
            elif e.kind == 'return' and e.value is not TRUE:
                v = cn(exists(e, (not_(e.value),)))
                falses.append(v)
        alts = parts(simplify_or(falses))
        alts = parts(Canon(rewrite=flatrest)(or_(*alts)))
        outs.append(set(alts))
    got, want = outs
    names = {}
    for w in want:
        t = show(w, limit=400)
        k = 'compatible members' if 'check_compatible' in t or \
            contains_any(w, lambda x: x.op == 'helper') else \
            'separated pairs' if contains(w, PN[2]) else 'blocks together'
        ctx.check(w in got, 'partition-check', k, 'a partition is not '
            'rejected when %s; it is when %s' % (show(w, limit=200),
            '; '.join(show(x, limit=200) for x in got - want)), f.where())
    for w in got - want:
        ctx.violation('partition-check', 'additional rejection', 'a '
            'partition is also rejected when %s' % show(w, limit=250),
            f.where())


def inputs(ctx, f):
    ctx.rule('input-check', 'outer constraints, the row constraints of every '
        'column and the members of every dependent block are all validated')
    s = ctx.summ(f, inline=core.boundary(VN, 'check_compatible_customers'),
        args={n: p for n, p in zip(positional(f), PN)})
    N, Cd, Ci, Rd, Ri = PN
    cn = Canon(rewrite=flatrest)
    seen = []
    for e in s.events:
        if e.kind == 'call' and (e.name or '').split('@')[0].split('.')[-1] \
                == VN:
            kw = dict(e.kw or ())
            a = list(e.args)
            a += [kw[k] for k in ('N', 'Cd', 'Ci')[len(a):] if k in kw]
            src = [fr[1] for fr in e.ctx if fr[0] == 'for']
            seen.append((tuple(cn(x) for x in a), tuple(src),
                tuple(e.guard)))
    ctx.check(any(a == (N, Cd, Ci) and not g for a, c, g in seen),
        'input-check', 'outer', 'the column constraints are not validated '
        'against the number of columns', f.where())
    c = mk('elem', Rd, 0)
    dep = mk('item', Rd, c)
    ind = ite(cmp_('in', c, Ri), mk('item', Ri, c), mk('list'))
    ctx.check(any(len(a) == 3 and a[0] is NONE and a[1] is dep and
        a[2] is cn(ind) and not g and src for a, src, g in seen),
        'input-check', 'rows', 'the row constraints of every column are not '
        'validated: %s' % [show(x, limit=100) for a, c, g in seen
            for x in a][3:6], f.where())
    r, cond, _ = form(ctx, f, rewrite=flatrest,
        inline=core.boundary(VN, 'check_compatible_customers'))
    B = mk('elem', Cd, 0)
    want = mk('helper', 'check_compatible_customers')
    call = lambda a, b: mk('call', want, (Cd, Ci, Ri, Rd, a, b), ())
    comb = [t for t in subterms(cond) if t.op in ('anypair',)]
    ok = False
    for t in subterms(cond):
        if t.op == 'call' and t.a[0] is want and len(t.a[1]) == 6:
            ok = ok or t.a[1][:4] == (Cd, Ci, Ri, Rd) and \
                t.a[1][4] is not t.a[1][5]
    exp = [mk('anyq', mk('anypair', not_(call(mk('pair', B, 0),
        mk('pair', B, 1))), B), ((Cd, ()),))]
    comb = mk('call', mk('glob', 'itertools.combinations'), (B, const(2)),
        ())
    e = mk('elem', comb, 0)
    exp.append(mk('anyq', not_(call(mk('item', e, const(0)), mk('item', e,
        const(1)))), ((Cd, ()), (comb, ()))))
    exp = [Canon(rewrite=flatrest)(x) for x in exp]
    ctx.check(cond in exp, 'input-check', 'blocks', 'incompatible members of '
        'a block are not what is rejected: %s' % show(cond, limit=250),
        f.where())


def query(ctx, f):
    ctx.rule('query-split', 'query and evidence are each partitioned by the '
        'same assignment; absent evidence is empty')
    r, c, s = form(ctx, f, rewrite=norm, inline=core.boundary(
        'partition_list', 'partition_dict'))
    Z, Q, E = PN[:3]
    lst = lambda x: mk('call', mk('func', V + 'partition_list'), (Z, x), ())
    dct = lambda x: mk('call', mk('func', V + 'partition_dict'), (Z, x), ())
    none = cmp_('is', E, NONE)
    isd = mk('isinstance', Q, mk('glob', 'dict'))
    if r.op != 'tuple' or len(r.a) != 2:
        ctx.violation('query-split', f.short, 'does not return a pair',
            f.where())
        return
    q, e = r.a
    conds = [t.a[0] for t in subterms(q) if t.op == 'ite']
    one = [subst(q, {k: TRUE for k in conds}), subst(q, {k: FALSE for k in
        conds})]
    ok = (dct(Q) in one and lst(Q) in one and all(k.op == 'isinstance' or
        k.op == 'not' and k.a[0].op == 'isinstance' for k in conds))
    pos = [k for k in conds if k.op == 'isinstance']
    if ok and pos:
        ok = subst(q, {pos[0]: TRUE}) is dct(Q)
    ctx.check(ok, 'query-split', 'query', 'the query is not partitioned by '
        'its assignment: %s' % show(q, limit=150), f.where())
    empty = lambda t: t.op in ('dict', 'list', 'tuple') and not t.a
    given, absent = e, e
    if e.op == 'ite':
        if e.a[0] is none:
            absent, given = e.a[1], e.a[2]
        elif e.a[0] is E:
            given, absent = e.a[1], e.a[2]
    ctx.check(given is dct(E), 'query-split', 'evidence', 'the evidence is '
        'not partitioned by its assignment: %s' % show(e, limit=150),
        f.where())
    ctx.check(empty(absent), 'query-split', 'no evidence',
        'absent evidence gives %s' % show(absent, limit=100), f.where())
