"""C31: what a model says about itself.

The kind a model declares (collapsed, conditional, continuous, numeric), its
name, its type arguments and the statistics it reports are compared with what
its own operations do: whether inference updates parameters, whether inputs
are read, which values its support holds, what observing a value adds."""
from effects import *       # noqa
from canon import assume
from rules import support
from rules.conj import registered_classes
from rules.hyper import entries, final, dictionary
from rules.mixture import keep, facts
import core
import re

SELF = mk('param', 'self')
CONTINUOUS = {'linear_regression': True, 'random_forest': False, 'crp': False}
# Categories, not quantities.
NOMINAL = {'bernoulli', 'categorical', 'crp', 'random_forest'}
X = mk('param', 'x')
STATS = {
    'N': const(1), 'sum_x': X, 'x_sum': X, 'sum_x_sq': power(X, const(2)),
}
TEXT = '''
import math
import numpy as np
from scipy.special import gammaln
def log_x(x): return math.log(x)
def log_x_np(x): return np.log(x)
def sum_log_x_sq(x): return math.log(x)**2
def minus(x): return math.log(1. - x)
def fact(x): return gammaln(x + 1)
def sin_x(x): return math.sin(x)
def cos_x(x): return math.cos(x)
'''
FUNS = {'sum_log_x': 'log_x', 'sum_log_x_sq': 'sum_log_x_sq',
    'sum_minus_log_x': 'minus', 'sum_log_fact_x': 'fact',
    'sum_sin_x': 'sin_x', 'sum_cos_x': 'cos_x'}


def flag(ctx, c, name):
    f = c.lookup(name)
    if f is None:
        return None, None
    r = Canon()(ctx.summ(f, c).result)
    return (True if r is TRUE else False if r is FALSE else None), f


def reads(t, p):
    """Whether the value depends on p beyond p being empty or missing."""
    if not isinstance(t, T):
        return isinstance(t, tuple) and any(reads(x, p) for x in t)
    if t is p:
        return True
    if t.op == 'not' and t.a[0] is p or t.op == 'is' and p in t.a and \
            NONE in t.a:
        return False
    if t.op == 'ite':
        return t.a[0] is not p and reads(t.a[0], p) or \
            reads(t.a[1], p) or reads(t.a[2], p)
    if t.op in ('and', 'or'):
        return any(x is not p and reads(x, p) for x in t.a)
    return any(reads(x, p) for x in t.a if isinstance(x, (T, tuple)))


def inputs_used(ctx, c):
    """An operation whose outcome depends on the values of the inputs."""
    for n in ('logpdf', 'simulate', 'incorporate'):
        f = c.lookup(n)
        if 'inputs' not in f.params:
            continue
        p = mk('param', 'inputs')
        s = ctx.summ(f, c)
        vs = [s.result] + [e.value for e in s.events
            if e.kind == 'write' and e.value is not None] + [
            e.value for e in s.events if e.kind in ('call', 'mutate')
            and e.value is not None]
        if any(reads(v, p) for v in vs):
            return n
    return None


def run(ctx):
    R = ctx.rule('kind', 'The kind a model declares is what it is: collapsed '
        'models have no parameters that inference updates, conditional ones '
        'and only they read inputs, discrete ones have countable supports, '
        'nominal ones report how many categories there are.')
    A = ctx.rule('type-arguments', 'The type arguments a model reports are '
        'the ones it was given, under the same names, and are enough to '
        'build it again.')
    S = ctx.rule('statistics', 'The statistics a model reports under a name '
        'are the ones observing a value adds to.')
    N = ctx.rule('name', 'The name of a model is the one it is registered '
        'under.')
    cl = registered_classes(ctx)
    ctx.require(len(cl), 13, 'registered types')
    for key, c in sorted((k, v[2])
            for k, v in cl.items()):
        kinds(ctx, R, key, c)
        typeargs(ctx, A, key, c)
        statistics(ctx, S, key, c)
        f = c.lookup('name')
        r = ctx.summ(f, c).result
        ctx.check(is_const(r) and r.a[1] == key, N, c.name,
            'is called %s but registered as %s' % (show(r), key), f.where())
    E = Effects(ctx, keep('cctype_class'), rewrite=facts)
    ref = Ref(ctx, DIM, 'kind')
    dim = ctx.ix.cls('cgpm.mixtures.dim.Dim')
    for m in ('is_collapsed', 'is_conditional', 'is_continuous', 'is_numeric',
            'name', 'get_distargs'):
        f = dim.lookup(m)
        if f is None:
            ctx.violation(R, 'Dim.' + m, 'not found', dim.where())
            continue
        agree(ctx, R, f, ['col_' + m, 'aux_' + m], ref, 'what a column says of its '
            'models', E, cls=dim)
    f = dim.lookup('get_suffstats')
    agree(ctx, S, f, ['stats', 'stats_b', 'stats_c'], ref, 'the statistics of '
        'a column, one entry for each of its models and one for a fresh one',
        E, cls=dim)


STATISTICS = '''
def stats(self):
    if len(self.clusters) == 0:
        return {0: self.aux_model.get_suffstats()}
    s = [(k, self.clusters[k].get_suffstats()) for k in self.clusters]
    return dict(s + [(max(self.clusters) + 1,
        self.aux_model.get_suffstats())])
def stats_b(self):
    if not self.clusters:
        return {0: self.aux_model.get_suffstats()}
    s = {k: self.clusters[k].get_suffstats() for k in self.clusters}
    s[max(self.clusters) + 1] = self.aux_model.get_suffstats()
    return s
def stats_c(self):
    s = {k: self.clusters[k].get_suffstats() for k in self.clusters}
    s[max(self.clusters) + 1 if self.clusters else 0] = \
        self.aux_model.get_suffstats()
    return s
'''


DIM = '''
def col_is_collapsed(self):
    return self.model.is_collapsed()
def col_is_conditional(self):
    return self.model.is_conditional()
def col_is_continuous(self):
    return self.model.is_continuous()
def col_is_numeric(self):
    return self.model.is_numeric()
def col_name(self):
    return self.model.name()
def col_get_distargs(self):
    return self.aux_model.get_distargs()
'''
DIM += DIM.replace('col_', 'aux_').replace('self.model', 'self.aux_model')
DIM += STATISTICS


def kinds(ctx, R, key, c):
    said = {}
    for n in ('collapsed', 'conditional', 'continuous', 'numeric'):
        v, f = flag(ctx, c, 'is_' + n)
        ctx.check(v is not None, R, '%s.is_%s' % (c.name, n),
            'does not declare whether it is %s' % n,
            f.where() if f else c.where())
        said[n] = v, f

    def says(n, want, why):
        v, f = said[n]
        if v is not None:
            ctx.check(v == want, R, '%s.is_%s' % (c.name, n),
                'declares itself %s%s but %s' % ('' if v else 'not ', n, why),
                f.where())
    # Collapsed.
    f = c.lookup('transition_params')
    s = ctx.summ(f, c)
    does = [e for e in s.events if e.kind in ('write', 'mutate') or
        e.kind == 'call' and e.value is not None and
        last(e.value.a[0] if e.value.op == 'call' else e.value) in UPDATES]
    says('collapsed', not does, '%s parameters in inference' % (
        'updates' if does else 'updates no'))
    u = inputs_used(ctx, c)
    says('conditional', u is not None, 'reads its inputs in %s' % u if u else
        'never reads its inputs')
    sup = support.SUPPORT.get(key)
    cont = CONTINUOUS.get(key) if sup is None else bool(
        sup(.25, {'k': 4, 'l': 0, 'h': 1}))
    says('continuous', cont, 'its support is %s' % ('an interval' if cont
        else 'countable'))
    says('numeric', key not in NOMINAL, 'its values are %s' % ('categories'
        if key in NOMINAL else 'quantities'))


def typeargs(ctx, A, key, c):
    f = c.lookup('get_distargs')
    d = entries(ctx.summ(f, c).result)
    what = c.name + '.get_distargs'
    ctx.check(d is not None, A, what, 'reports no dictionary', f.where())
    if d is None:
        return
    if key in NOMINAL and key != 'crp':
        ctx.check('k' in d, A, what, 'does not report the number of '
            'categories', f.where())
    sup = support.SUPPORT.get(key)
    k = d.get('k')
    if k is not None and k.op == 'num':
        n = sum(1 for x in range(-50, 50) if sup(x, {}))
        ctx.check(k is const(n), A, what, 'reports %s categories where its '
            'support has %d values' % (show(k), n), f.where())
    # Back through the constructor.
    init = c.lookup('__init__')
    ps = {}

    def param(path, v):
        e = entries(v) if v.op in ('dict', 'setitem') else None
        if e is not None:
            return dictionary({q: param(path + (q,), w)
                for q, w in e.items()})
        ps[path] = mk('param', 'given_' + '_'.join(map(str, path))), v
        return ps[path][0]
    given = dictionary({q: param((q,), v) for q, v in d.items()})
    s = ctx.summ(init, c, args={q: given if q == 'distargs' else NONE
        for q in init.params if q == 'distargs' or q in d})
    got = final(s)
    names = {k for k in needed(ctx, init, c)}
    ctx.check(names <= set(d), A, what, 'is built from %s but reports only '
        '%s' % (', '.join(sorted(names)), ', '.join(sorted(d))), f.where())
    for path, (p, v) in sorted(ps.items()):
        if path[0] not in names:
            continue
        if v.op != 'attr' or v.a[0] is not SELF:
            if k is not None and v.op == 'num':
                continue
        w = got.get(v)
        w = Canon()(w) if w is not None else None
        while w is not None and w.op == 'call' and last(w.a[0]) in ('int',
                'float', 'list', 'tuple', 'dict') and len(w.a[1]) == 1:
            w = w.a[1][0]
        ctx.check(w is p, A, '%s %s' % (what, '.'.join(path)),
            'reports %s, which the constructor sets to %s rather than to '
            'what it was given' % (show(v, limit=60), show(w, limit=60)
            if w is not None else 'nothing'), f.where())


def needed(ctx, init, c):
    """Keys of the type arguments the constructor reads."""
    out = set()
    p = mk('param', 'distargs')
    s = ctx.summ(init, c)
    for e in s.events:
        for t in subterms(mk('tuple', *[x for x in (e.value, e.loc)
                if isinstance(x, T)])):
            if t.op == 'item' and t.a[0] is p and is_const(t.a[1]):
                out.add(t.a[1].a[1])
            elif t.op == 'call' and t.a[0].op == 'attr' and \
                    t.a[0].a[0] is p and t.a[0].a[1] == 'get':
                out.add(t.a[1][0].a[1])
    return out


def statistics(ctx, S, key, c):
    f = c.lookup('get_suffstats')
    d = entries(ctx.summ(f, c).result)
    what = c.name + '.get_suffstats'
    ctx.check(d is not None, S, what, 'reports no dictionary', f.where())
    if not d:
        return
    inc = c.lookup('incorporate')
    ref = Ref(ctx, TEXT, 'kindstats')
    obs = mk('param', inc.params[2])
    s = ctx.summ(inc, c)
    x = mk('item', obs, mk('item', mk('attr', SELF, 'outputs'), const(0)))
    start = final(ctx.summ(c.lookup('__init__'), c))
    for n, v in sorted(d.items()):
        loc = strip(v)
        ctx.check(nothing(start.get(loc)), S, '%s %s at first' % (what, n),
            'is %s before anything is observed' % (show(start.get(loc),
            limit=60) if start.get(loc) is not None else 'undefined'),
            f.where())
    adds = {}
    for e in s.writes():
        if e.value is not None and e.loc.op in ('attr', 'item'):
            there = mk('in', *e.loc.a[1::-1]) if e.loc.op == 'item' else None
            adds[e.loc] = inner(Canon()(subst(add(e.value, neg(e.loc)),
                {x: X, there: TRUE} if there else {x: X})))
    for n, v in sorted(d.items()):
        if n == 'counts':
            v = strip(v)
            hit = [l for l in adds if l.op == 'item' and l.a[0] is v]
            ctx.check(len(hit) == 1 and adds[hit[0]] is const(1), S,
                '%s %s' % (what, n), 'reports %s, which is not the count of '
                'observed values' % show(v, limit=60), f.where())
            continue
        want = [STATS[n]] if n in STATS else None
        if n in FUNS:
            g = ref.fn(FUNS[n])
            want = [Canon()(subst(ctx.summ(g).result,
                {mk('param', g.params[0]): X}))]
        if want is None:
            ctx.violation(S, '%s %s' % (what, n), 'reports an unknown '
                'statistic', f.where())
            continue
        got = adds.get(v)
        ctx.check(got is not None and Canon()(got) is Canon()(want[0]), S,
            '%s %s' % (what, n), 'reports %s, to which an observation adds %s'
            % (show(v, limit=60), show(got, limit=80) if got is not None
            else 'nothing'), f.where())


def inner(t):
    """The value away from the border, where some models move it."""
    for b in list(subterms(t)):
        if b.op == 'call' and last(b.a[0]) in ('allclose', 'isclose'):
            t = subst(t, {b: FALSE})
    return Canon()(t)


def nothing(v):
    """Zero, or a table of zeros, or an empty table."""
    if v is None:
        return False
    v = Canon()(v)
    if v.op in ('dict', 'list') and not v.a or v is const(0):
        return True
    if v.op == 'call':
        n, a = last(v.a[0]), v.a[1]
        return n in ('zeros', 'zeros_like') or not a and n in (
            'OrderedDict', 'dict', 'defaultdict', 'Counter', 'int', 'float')\
            or n == 'defaultdict' or len(a) == 1 and n in ('array', 'asarray',
            'float', 'int', 'list', 'OrderedDict', 'dict') and nothing(a[0])
    if v.op == 'repeat':
        return v.a[0].op == 'list' and all(nothing(x) for x in v.a[0].a)
    if v.op == 'comp':
        e = v.a[1].a[1] if v.a[0] == 'dict' else v.a[1]
        return nothing(e)
    return v.op == 'list' and all(nothing(x) for x in v.a)


def strip(v):
    while v.op == 'call' and (last(v.a[0]) in ('list', 'dict', 'tuple') and
            len(v.a[1]) == 1 or last(v.a[0]) in ('items', 'copy', 'tolist')):
        v = v.a[1][0] if v.a[1] else v.a[0].a[0]
    return v
