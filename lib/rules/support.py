"""Supports: what a model accepts is what its density allows, and a rejected
observation leaves no trace.

Acceptance (the guards of the raising paths of incorporate) and positivity
(the guards of the -inf leaves of logpdf) are conditions on the order and the
integrality of the observed value relative to finitely many constants.  Both
are evaluated in the finite abstract domain of those order/integrality
regions and must agree with the model's declared support everywhere.
"""
import math
from fractions import Fraction

from algebra import fname
from front import AnalysisBroken
from terms import *         # noqa
from rules.conj import registered_classes, target_value, SELF
from rules import closed
import core

R_ACC = 'C04.accepts'
R_DEN = 'C04.density'
R_ATOM = 'C04.reject-first'
R_ERR = 'C04.raises-error'
R_REC = 'C04.records-value'
R_DRAW = 'C04.simulates-inside'

INT = lambda x, p: x == int(x)
# Declared supports.
SUPPORT = {
    'bernoulli': lambda x, p: x in (0, 1),
    'beta': lambda x, p: 0 < x < 1,
    'categorical': lambda x, p: x == int(x) and 0 <= x < p['k'],
    'crp': None,                       # any label; decided by C03/C15
    'exponential': lambda x, p: x >= 0,
    'geometric': lambda x, p: x == int(x) and x >= 0,
    'lognormal': lambda x, p: x > 0,
    'normal': lambda x, p: True,
    'normal_trunc': lambda x, p: p['l'] <= x <= p['h'],
    'poisson': lambda x, p: x == int(x) and x >= 0,
    'vonmises': lambda x, p: 0 <= x <= 2 * math.pi,
}
DISTARGS = {
    'categorical': [{'k': 1}, {'k': 2}, {'k': 4}],
    'normal_trunc': [{'l': -1.5, 'h': 2.25}, {'l': 1, 'h': 3},
        {'l': -4, 'h': -1}],
}
BASE = [-1e6, -7, -4, -3.5, -2, -1.5, -1, -.25, -1e-3, 0, 1e-3, .25, .75, .999,
    1, 1.001, 1.5, 2, 2.25, 2.5, 3, 3.5, 4, 5, 6, 6.25, 2 * math.pi, 6.3, 7,
    7.5, 1e6]
# Points a clamp of values numerically equal to the border may move.
BORDER = [-1e-9, 1e-9, 1 - 1e-9, 1 + 1e-9]


class Unknown(Exception):
    pass


def evaluate(t, env):
    """Value of a condition/arithmetic term in one region."""
    if t in env:
        return env[t]
    op = t.op
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if op == 'num':
        return t.a[0]
    if op == 'const':
        return const_value(t)
    if op == 'inf':
        return float('inf')
    if op == 'glob' and t.a[0].endswith('.pi'):
        return math.pi
    if op == 'glob' and t.a[0].endswith('.e'):
        return math.e
    if op == 'poly':
        r = 0
        for m, c in t.a[0]:
            x = c
            for a, e in m:
                x = x * evaluate(a, env) ** (int(e) if e == int(e)
                    else float(e))
            r = r + x
        return r
    if op == 'mod':
        return evaluate(t.a[0], env) % evaluate(t.a[1], env)
    if op == 'floordiv':
        return evaluate(t.a[0], env) // evaluate(t.a[1], env)
    if op == 'not':
        return not evaluate(t.a[0], env)
    if op == 'and':
        return all(evaluate(x, env) for x in t.a)
    if op == 'or':
        return any(evaluate(x, env) for x in t.a)
    if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        a, b = evaluate(t.a[0], env), evaluate(t.a[1], env)
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b,
            'gt': a > b, 'ge': a >= b}[op]
    if op in ('in', 'notin'):
        c = t.a[1]
        x = evaluate(t.a[0], env)
        if c.op in ('list', 'tuple', 'set'):
            r = any(x == evaluate(y, env) for y in c.a)
        elif c.op == 'call' and fname(c.a[0]) in ('range', 'xrange'):
            r = x in range(*[int(evaluate(y, env)) for y in c.a[1]])
        else:
            raise Unknown(show(t, limit=80))
        return r if op == 'in' else not r
    if op == 'ite':
        return evaluate(t.a[1] if evaluate(t.a[0], env) else t.a[2], env)
    if op == 'call' and t.a[0].op == 'attr' and str(t.a[0].a[1]).split(
            '@')[0] == 'is_integer':
        x = evaluate(t.a[0].a[0], env)
        return x == int(x)
    if op == 'call':
        n = fname(t.a[0])
        args = [evaluate(x, env) for x in t.a[1]]
        kw = dict(t.a[2])
        if n == 'int':
            return int(args[0])
        if n in ('float', 'asscalar'):
            return args[0]
        if n in ('floor', 'trunc'):
            return math.floor(args[0]) if n == 'floor' else int(args[0])
        if n in ('round', 'rint', 'around'):
            return round(args[0])
        if n in ('abs', 'fabs'):
            return abs(args[0])
        if n == 'bool':
            return bool(args[0])
        if n in ('isnan', 'isinf'):
            return False
        if n in ('allclose', 'isclose'):
            a, b = args[:2]
            rt = evaluate(kw['rtol'], env) if 'rtol' in kw else 1e-5
            at = evaluate(kw['atol'], env) if 'atol' in kw else 1e-8
            return abs(a - b) <= at + rt * abs(b)
        if n == 'max':
            return max(args)
        if n == 'min':
            return min(args)
        if n == 'remainder' or n == 'fmod':
            return args[0] % args[1]
        if n == 'isinstance':
            return True
    raise Unknown(show(t, limit=80))


def regions(key):
    for p in DISTARGS.get(key, [{}]):
        for x in BASE + BORDER:
            yield x, p


def envs(ctx, cls, X, x, p, acc, extra=()):
    env = {X: x}
    for k, v in p.items():
        if k not in acc:
            raise AnalysisBroken('%s does not report %s' % (cls.name, k))
        env[acc[k]] = v
    for t, v in extra:
        env[t] = v
    return env


def accept_guard(inc):
    """Condition under which incorporate raises."""
    return or_(*[and_(*e.guard) for e in inc.raises()]) if inc.raises() \
        else FALSE


def run(ctx):
    ctx.rule(R_ACC, 'incorporate raises exactly outside the declared support')
    ctx.rule(R_DEN, 'logpdf is -inf exactly outside the declared support')
    ctx.rule(R_REC, 'an accepted value is recorded as observed')
    ctx.rule(R_ERR, 'a rejecting path raises an exception object')
    ctx.rule(R_ATOM, 'no update of model state can precede the rejection of '
        'the observation')
    n = 0
    for k, (mm, name, c) in sorted(registered_classes(ctx).items()):
        if c is None:
            raise AnalysisBroken('%s.%s not found' % (mm, name))
        key = closed.cname(ctx, c)
        if key in SUPPORT and SUPPORT[key] is not None:
            one(ctx, key, c)
            n += 1
    ctx.require(n, 10, 'models with a declared support')
    atomic(ctx)


def one(ctx, key, c):
    inc = ctx.summ(c.lookup('incorporate'), c)
    lp = ctx.summ(c.lookup('logpdf'), c)
    acc = closed.accessors(ctx, c)
    O = mk('item', mk('param', 'observation'),
        mk('item', mk('attr', SELF, 'outputs'), const(0)))
    X = target_value()
    bad = accept_guard(inc)
    leaves = lift_all(lp.result)
    rec = None
    for e in inc.writes():
        if e.loc.op == 'item' and e.loc.a[1] is mk('param', 'rowid'):
            rec = e.value
    facts = {mk('in', mk('param', 'rowid'), mk('attr', SELF, 'data')): False}
    where = c.lookup('incorporate').where()
    miss = {'acc': [], 'den': [], 'rec': []}
    try:
        for x, p in regions(key):
            want = bool(SUPPORT[key](x, p))
            env = envs(ctx, c, O, x, p, acc, facts.items())
            got = not evaluate(bad, env)
            if got != want:
                miss['acc'].append((x, p, got))
            if got and want and rec is not None:
                v = evaluate(rec, env)
                if v != x and abs(x) < 1e5:
                    miss['rec'].append((x, p, v))
            env = envs(ctx, c, X, x, p, acc, facts.items())
            fin = finite(leaves, env)
            if fin != want and x not in BORDER:
                miss['den'].append((x, p, fin))
    except Unknown as e:
        raise AnalysisBroken('%s: support condition not understood: %s'
            % (c.name, e))
    r = miss['acc']
    ctx.check(not r, R_ACC, at(c, r), 'value %s is %s by incorporate%s' % (
        r and r[0][0], 'accepted outside the support' if r and r[0][2]
        else 'rejected inside the support', ' (%s)' % r[0][1]
        if r and r[0][1] else ''), where)
    r = miss['den']
    ctx.check(not r, R_DEN, c.name, 'value %s has %s density%s' % (
        r and r[0][0], 'positive' if r and r[0][2] else 'zero',
        ' (%s)' % r[0][1] if r and r[0][1] else ''),
        c.lookup('logpdf').where())
    r = miss['rec']
    ctx.check(not r, R_REC, at(c, r), 'value %s is recorded as %s' % (
        r and r[0][0], r and r[0][2]), where)
    for e in inc.raises():
        v = e.value
        good = v is None or v.op in ('glob', 'class', 'builtin') or \
            v.op == 'call' or v.op == 'obj'
        ctx.check(good, R_ERR, c.name, 'raises %s, which is not an exception'
            % show(v, limit=80), e.at())
    pre = c.methods.get('preprocess')
    if pre is not None and pre.is_static and len(pre.params) >= 1:
        s = ctx.summ(pre, c)
        g = accept_guard(s)
        xs = mk('param', pre.params[0])
        da = mk('param', 'distargs')
        r = []
        try:
            for x, p in regions(key):
                if x in BORDER:
                    continue
                env = {xs: x}
                for k, v in p.items():
                    env[mk('item', da, const(k))] = v
                if (not evaluate(g, env)) != bool(SUPPORT[key](x, p)):
                    r.append(x)
        except Unknown as e:
            ctx.notes.append('%s.preprocess not decided: %s' % (c.name, e))
            r = []
        ctx.check(not r, R_ACC, c.name + '.preprocess', 'value %s is treated '
            'differently from the support' % (r and r[0]), pre.where())


def at(c, r):
    """Construct name; misses confined to a numerical border name it."""
    pts = sorted({float(x[0]) for x in r})
    if pts and all(min(abs(x), abs(x - 1)) < 1e-6 for x in pts):
        return '%s@%s' % (c.name, ','.join('%.12g' % x for x in pts))
    return c.name


def lift_all(t):
    from algebra import lift_ites
    return lift_ites(closed.gates_off(t), 64)


def finite(leaves, env):
    t = None
    for conds, leaf in leaves:
        ok = True
        for cnd, v in conds:
            try:
                if bool(evaluate(cnd, env)) != v:
                    ok = False
                    break
            except Unknown:
                # A gate that does not test the value splits finite cases.
                if not is_support_gate(cnd, env):
                    continue
                raise
        if ok:
            t = leaf
            if is_ninf(leaf):
                return False
    if t is None:
        raise Unknown('no density case applies')
    return not is_ninf(t)


def is_support_gate(cnd, env):
    return False


def is_ninf(t):
    return 'inf' in show(t, limit=20) and len(show(t, limit=40)) < 16


# ---------------------------------------------------------------------------
# Rejection leaves no trace.


def persistent(loc):
    r = loc
    while r.op in ('attr', 'item', 'elem', 'slice'):
        r = r.a[0]
    return r is SELF or r.op == 'param'


def raising(ctx):
    """Incorporate methods that can reject a value."""
    out = set()
    for k, (mm, name, c) in registered_classes(ctx).items():
        out.add(c)
    return out


def atomic(ctx):
    """In every incorporate: raise paths start from an unmodified object, and
    a sub-model that may reject is consulted before anything is changed."""
    done = set()
    base = ctx.ix.cls('cgpm.cgpm.CGpm')
    n = 0
    for c in ctx.ix.subclasses(base, strict=True):
        f = c.methods.get('incorporate')
        if f is None or c.name in ('VsCGpm',) or trivial(f):
            continue
        check_atomic(ctx, c, f)
        n += 1
    for q in ('cgpm.crosscat.state.State.force_cell',):
        cn, m = q.rsplit('.', 1)
        c = ctx.ix.cls(cn)
        check_atomic(ctx, c, c.lookup(m))
    ctx.require(n, 15, 'incorporate implementations')


def trivial(f):
    return len(f.node.body) <= 1


def check_atomic(ctx, c, f):
    s = ctx.summ(f, c, inline=core.boundary('incorporate', 'unincorporate',
        'transition_rows', keep_self=True))
    writes = []
    subs = []
    bad = None
    for e in s.events:
        if e.kind == 'write' and persistent(e.loc):
            # Validation of invariants after the fact (asserts) is not a
            # rejection of the observation.
            writes.append(e)
        elif e.kind == 'raise':
            w = [w for w in writes if compatible(w, e)]
            if w and not invariant_check(e) and about(e, s):
                bad = (e, w[0], 'raises')
        elif e.kind == 'call' and not e.inlined and (e.name or '').split(
                '@')[0] == 'incorporate' and e.recv is not None and \
                e.recv is not SELF:
            w = [w for w in writes if compatible(w, e)]
            loop = any(fr[0] == 'for' for fr in e.ctx)
            if may_reject(ctx, c, e):
                if w:
                    bad = bad or (e, w[0], 'hands the value to a sub-model '
                        'that may reject it')
                elif subs and compatible(subs[0], e):
                    bad = bad or (e, subs[0], 'hands the value to a '
                        'sub-model that may reject it')
                elif loop:
                    bad = bad or (e, e, 'hands values in turn to several '
                        'sub-models, any of which may reject its own')
            subs.append(e)
    if bad:
        e, w, how = bad
        what = show(w.loc, limit=60) if w.kind == 'write' else \
            'an earlier sub-model was updated'
        ctx.violation(R_ATOM, '%s.%s' % (c.name, f.name), '%s after %s was '
            'changed; a rejected observation leaves a partial update' % (how,
                what), e.at())
    else:
        ctx.ok(R_ATOM, '%s.%s' % (c.name, f.name))


def may_reject(ctx, c, e):
    """The mixture assignment accepts every label."""
    r = e.recv
    if r.op == 'attr' and r.a[0] is SELF:
        t = ctx.types.attr(c, r.a[1])
        k = getattr(t, 'a', [None])[0] if t is not None else None
        if 'Crp' in repr(t) or 'Crp' in repr(k):
            return False
    return True


def about(e, s):
    """The rejection tests the observation."""
    g = e.guard[-1] if e.guard else TRUE
    return contains_any(g, lambda y: y.op == 'param' and y.a[0] in (
        'observation', 'inputs', 'rowid'))


def compatible(a, b):
    return and_(*(tuple(a.guard) + tuple(b.guard))) is not FALSE


def invariant_check(e):
    v = e.value
    return v is not None and 'AssertionError' in show(v, limit=40)
