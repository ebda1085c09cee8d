"""Chain rule between logpdf, incorporate and logpdf_score.

For a univariate model M with summarised data D the product rule demands

    M.logpdf(x | D)  ==  M.logpdf_score(D + x) - M.logpdf_score(D)

The three methods are summarised by the dataflow analysis; `D + x` is obtained
by applying the location updates of `incorporate` to the score term; and the
difference of both sides is decided by normal form.
"""
from algebra import *       # noqa
from algebra import fname
from front import AnalysisBroken
from terms import *         # noqa
import interp
import lit

SELF = mk('param', 'self')


def primitive_classes(ctx):
    base = ctx.ix.cls('cgpm.primitives.distribution.DistributionGpm')
    return [c for c in ctx.ix.subclasses(base, strict=True)]


def registered_classes(ctx):
    """Classes listed in the statistical-type registry."""
    m = ctx.ix.modules.get('cgpm.utils.config')
    try:
        table = lit.const(m, 'cctype_class_lookup')
    except (lit.Unknown, AttributeError):
        raise AnalysisBroken('cctype_class_lookup not found')
    out = {}
    for k, (mod, cl) in sorted(table.items()):
        out[k] = (mod, cl, ctx.ix.resolve_dotted('%s.%s' % (mod, cl)))
    return out


def observation_value(summary, cls):
    """Term of the observed value in incorporate's terms."""
    return mk('item', mk('param', 'observation'),
        mk('item', mk('attr', SELF, 'outputs'), const(0)))


def target_value():
    return mk('item', mk('param', 'targets'),
        mk('item', mk('attr', SELF, 'outputs'), const(0)))


def dnf(c):
    """Disjuncts of a guard."""
    if c.op == 'or':
        return [d for x in c.a for d in dnf(x)]
    if c.op == 'and':
        outs = [[]]
        for x in c.a:
            ds = dnf(x)
            outs = [o + [d] for o in outs for d in ds]
        return [and_(*o) for o in outs]
    return [c]


class Update(object):
    """Effect of incorporate on the object's persistent locations."""

    def __init__(self, summ):
        self.scalars = {}
        self.items = {}          # container loc -> (idx, new value)
        self.guard = None
        for e in summ.writes():
            loc = e.loc
            if loc.op == 'attr':
                self.scalars[loc] = e.value
            elif loc.op == 'item':
                self.items[loc.a[0]] = (loc.a[1], e.value)
            self.guard = e.guard
        # Final values from the end state (accounts for gates).
        if summ.end is not None:
            for loc in list(self.scalars):
                self.scalars[loc] = summ.end.heap.get(loc, loc)
            for c, (i, v) in list(self.items.items()):
                l = mk('item', c, i)
                self.items[c] = (i, summ.end.heap.get(l, v))


def apply_update(t, up, xmap, present):
    """Value of term t after the update.  `present`: {container: bool} says
    whether the updated key was already there."""
    t = normalise(t)
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = r = _go(x)
        return r

    def _go(x):
        if x.op == 'sum' and len(x.a[1]) == 1 and not x.a[1][0][1]:
            src = x.a[1][0][0]
            if src in up.items:
                idx, new = up.items[src]
                idx, new = subst(idx, xmap), subst(new, xmap)
                elt = x.a[0]
                e1 = mk('elem', src, 0)
                e2 = mk('item', src, e1)

                def at(v):
                    r = subst(elt, {e2: v})
                    return subst(r, {e1: v})
                r = add(mk('sum', go_inner(elt), x.a[1]), at(new))
                if present.get(src, False):
                    r = sub(r, at(mk('item', src, idx)))
                return r
        if x.op == 'call' and fname(x.a[0]) == 'len' and len(x.a[1]) == 1 \
                and x.a[1][0] in up.items:
            return x if present.get(x.a[1][0], False) else add(x, const(1))
        if x.op == 'call' and x.a[0].op == 'attr' and \
                x.a[0].a[1] == 'values' and x.a[0].a[0] in up.items \
                and not x.a[1]:
            c = x.a[0].a[0]
            if not present.get(c, False):
                new = subst(up.items[c][1], xmap)
                return mk('concat', x, mk('list', new))
            return mk('updvalues', x)
        if x in up.scalars:
            return subst(up.scalars[x], xmap)
        return rebuild_with(x, go)

    def go_inner(x):
        return x
    return go(t)


def rebuild_with(x, go):
    if x.op in ('num', 'const'):
        return x
    if x.op == 'poly':
        from fractions import Fraction
        r = const(0)
        for m, c in x.a[0]:
            y = mk('num', c)
            for a, e in m:
                y = mul(y, power(go(a), mk('num', Fraction(e))))
            r = add(r, y)
        return r

    def g(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(g(z) for z in y)
        return y
    na = tuple(g(y) for y in x.a)
    return x if na == x.a else rebuild(x.op, na)


def ctor_zero(ctx, cls):
    """Locations the constructor starts at zero/empty."""
    s = ctx.summ(cls.lookup('__init__'), cls)
    z = {}
    for e in s.writes():
        if e.loc.op == 'attr' and e.loc.a[0] is SELF:
            v = e.value
            if v.op == 'num' and v.a[0] == 0:
                z[e.loc] = 'zero'
            elif v.op == 'call' and fname(v.a[0]) == 'zeros':
                z[e.loc] = 'zeros'
            elif v.op == 'dict' and not v.a or v.op == 'call' and \
                    fname(v.a[0]) in ('OrderedDict', 'dict', 'defaultdict'):
                z[e.loc] = 'empty'
    return z


def chain_rule(ctx, cls, rule):
    name = cls.name
    inc = ctx.summ(cls.lookup('incorporate'), cls)
    sc = ctx.summ(cls.lookup('logpdf_score'), cls)
    lp = ctx.summ(cls.lookup('logpdf'), cls)
    where = cls.lookup('logpdf').where()
    if sc.result is None or lp.result is None or inc.end is None:
        raise AnalysisBroken('%s: no summary' % name)
    up = Update(inc)
    if not up.scalars and not up.items:
        raise AnalysisBroken('%s: incorporate has no effects' % name)
    xmap = {mk('param', 'observation'): mk('param', 'targets')}
    X = target_value()
    rowid = mk('param', 'rowid')
    invariants = {}
    zeros = ctor_zero(ctx, cls)
    guard = and_(*inc.end.guard)
    guard = subst(guard, xmap)
    cases = []
    for cnd, g in lift_ites(guard):
        cases += dnf(and_(g, *[c if v else not_(c) for c, v in cnd]))
    recorded = None
    for c, (i, v) in up.items.items():
        if i is rowid:
            recorded = subst(v, xmap)
    ncase = 0
    bad = None
    for case in cases:
        eqs = {}
        atoms = case.a if case.op == 'and' else (case,)
        for a in atoms:
            if a.op == 'eq' and (a.a[0] is X and is_const(a.a[1])):
                eqs[X] = a.a[1]
            elif a.op == 'eq' and (a.a[1] is X and is_const(a.a[0])):
                eqs[X] = a.a[0]
        # Presence of the updated key in containers of counters: both.
        counters = [c for c, (i, v) in up.items.items() if i is not rowid]
        pres_opts = [{}]
        for c in counters:
            zk = zeros.get(c)
            opts = [True] if zk == 'zeros' else [True, False]
            pres_opts = [dict(p, **{}) | {c: o} for p in pres_opts
                for o in opts]
        for present in pres_opts:
            facts = {cmp_('in', rowid, c): FALSE for c in up.items
                if up.items[c][0] is rowid}
            facts.update({mk('in', rowid, mk('attr', SELF, 'data')): FALSE})
            for c, p in present.items():
                idx = subst(up.items[c][0], xmap)
                facts[mk('in', idx, c)] = TRUE if p else FALSE
            for a in atoms:
                facts[a] = TRUE
                facts[not_(a)] = FALSE
            # Counter totals: sum(counts) == N when both start at zero and
            # grow by one together.
            inv = {}
            for c in counters:
                idx, new = up.items[c]
                if zeros.get(c) not in ('zeros', 'empty'):
                    continue
                cell = mk('item', c, idx)
                d = simplify(sub(new, cell), {
                    mk('in', idx, c): TRUE})
                for s, v in up.scalars.items():
                    if zeros.get(s) == 'zero' and d.op == 'num' and \
                            sub(v, s) is d:
                        k = mk('elem', c, 0)
                        for el in (k, mk('item', c, k)):
                            inv[mk('sum', el, ((c, ()),))] = s
            after = apply_update(sc.result, up, xmap, present)
            diff = sub(sub(after, normalise(sc.result)), lp.result)
            diff = simplify(diff, facts)
            diff = subst(diff, inv)
            diff = normalise(diff)
            diff = subst(diff, inv)
            if eqs:
                diff = normalise(subst(diff, eqs))
            diff = simplify(diff, facts)
            n_after = {s: up.scalars[s] for s in up.scalars}
            for conds, leaf in lift_ites(diff):
                if not feasible(conds, facts, atoms, X, up):
                    continue
                g2 = guard
                for cnd, val in conds:
                    g2 = choose(g2, cnd, val)
                g2 = simplify(g2, facts)
                if and_(g2, *[c if v else not_(c) for c, v in conds]) \
                        is FALSE:
                    continue
                if recorded is not None:
                    r = recorded
                    for cnd, val in conds:
                        r = choose(r, cnd, val)
                    r = simplify(r, facts)
                    if is_const(r):
                        continue     # value replaced on incorporation (C04)
                ncase += 1
                if not iszero(leaf):
                    bad = (case, present, conds, leaf)
                    break
            if bad:
                break
        if bad:
            break
    if ncase == 0:
        raise AnalysisBroken('%s: chain rule generated no case' % name)
    ctx.notes.append('%s: %d gated cases decided' % (name, ncase))
    if bad:
        case, present, conds, leaf = bad
        ctx.violation(rule, name,
            'logpdf(x) differs from logpdf_score(data + x) - '
            'logpdf_score(data) by %s' % show(normalise(leaf), limit=300),
            where)
        return False
    ctx.ok(rule, name)
    return True


def simplify(t, facts):
    for _ in range(6):
        mp = {}
        for y in subterms(t):
            if y in facts:
                mp[y] = facts[y]
        if not mp:
            return t
        n = subst(t, mp)
        if n is t:
            return t
        t = n
    return t


def feasible(conds, facts, atoms, X, up):
    """Discard gate combinations contradicting the case at hand."""
    for c, v in conds:
        if c in facts:
            if (facts[c] is TRUE) != v:
                return False
        want = c if v else not_(c)
        # Counts of observations are never negative: N + 1 == 0 impossible.
        if want.op == 'eq':
            a, b = want.a
            k = a if a.op == 'num' else b if b.op == 'num' else None
            o = b if k is a else a
            if k is not None and k.a[0] == 0 and o.op == 'poly':
                d = dict(o.a[0])
                if d.get((), 0) > 0 and all(cc > 0 for cc in d.values()) \
                        and all(len(m) <= 1 for m in d) and len(d) == 2 \
                        and any(mk('num', 1 * 0 + 1) and m and m[0][0] in
                            up.scalars for m in d):
                    return False
        # Combined with the support facts.
        for a in atoms:
            if and_(a, want) is FALSE:
                return False
    return True


R_CHAIN = 'C02.chain-rule'
# Not Bayesian updates of sufficient statistics: the score of a forest is the
# likelihood of the data under the current regressor (decided by C13/C14).
NO_CHAIN = {'random_forest'}


def run(ctx):
    ctx.rule(R_CHAIN, 'the normal form of logpdf(x) equals the score with the '
        'updates of incorporate applied minus the score without them, in '
        'every gated case of the support')
    n = 0
    for k, (m, name, c) in sorted(registered_classes(ctx).items()):
        if k in NO_CHAIN:
            continue
        if c is None:
            raise AnalysisBroken('registered class %s.%s not found' % (m, name))
        chain_rule(ctx, c, R_CHAIN)
        n += 1
    ctx.require(n, 12, 'registered models')
