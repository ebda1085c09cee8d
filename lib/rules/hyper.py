"""C12: hyperparameters: what is set is what is reported, invalid ones are
rejected, and the values inference proposes are valid ones."""
from effects import *       # noqa
from rules import mixture
from rules.mixture import Kit
from canon import assume
import core
import math

SELF = mk('param', 'self')


def canon(t):
    return Canon()(t)

INF = float('inf')
TWOPI = mul(const(2), mk('glob', 'math.pi'))

# name: {key: domain}; '+': above zero, '': any real, 'angle': within 0..2pi.
DOMAINS = {
    'bernoulli.Bernoulli': {'alpha': '+', 'beta': '+'},
    'categorical.Categorical': {'alpha': '+'},
    'crp.Crp': {'alpha': '+'},
    'exponential.Exponential': {'a': '+', 'b': '+'},
    'geometric.Geometric': {'a': '+', 'b': '+'},
    'lognormal.Lognormal': {'m': '', 'r': '+', 's': '+', 'nu': '+'},
    'normal.Normal': {'m': '', 'r': '+', 's': '+', 'nu': '+'},
    'poisson.Poisson': {'a': '+', 'b': '+'},
    'vonmises.Vonmises': {'a': '+', 'b': 'angle', 'k': '+'},
}
LINREG = {'a': '+', 'b': '+'}
# Hyperparameters these models keep for good.
FIXED = ['primitives.beta.Beta', 'primitives.normal_trunc.NormalTrunc',
    'regressions.forest.RandomForest']
# What the data of a model is known to be: (low, whether open).
SUPPORT = {'exponential': (0., False), 'geometric': (0., False),
    'poisson': (0., False), 'lognormal': (0., True),
    'bernoulli': (0., False), 'categorical': (0., False),
    'vonmises': (0., False)}


# --------------------------------------------------------------------------
# Intervals.

class Iv(object):
    """low <(=) x <= high."""

    def __init__(self, low, open_, high):
        self.low, self.open, self.high = low, open_, high

    def positive(self):
        return self.low > 0 or self.low == 0 and self.open

    def __repr__(self):
        return '%s%g, %g]' % ('(' if self.open else '[', self.low, self.high)


ANY = Iv(-INF, True, INF)


def times(x, y):
    return 0. if 0 in (x, y) else x * y


def iv_mul(a, b):
    if a.low >= 0 and b.low >= 0:
        return Iv(times(a.low, b.low), a.positive() and b.positive() and
            (a.open or b.open), times(a.high, b.high))
    es = [times(x, y) for x in (a.low, a.high) for y in (b.low, b.high)]
    return Iv(min(es), False, max(es))


def iv_add(a, b):
    return Iv(a.low + b.low, a.open or b.open, a.high + b.high)


def hull(*xs):
    low = min(x.low for x in xs)
    return Iv(low, all(x.open for x in xs if x.low == low),
        max(x.high for x in xs))


def iv_pow(a, e):
    if e == 0:
        return Iv(1., False, 1.)
    if not a.positive():
        if e == int(e) and int(e) % 2 == 0 and e > 0:
            return Iv(0., False, INF)
        if e > 0 and a.low >= 0:
            return Iv(0., a.open, a.high ** float(e) if a.high < INF
                else INF)
        return ANY
    e = float(e)

    def p(x):
        if x == 0:
            return 0. if e > 0 else INF
        if x == INF:
            return INF if e > 0 else 0.
        return x ** e
    low, high = sorted((p(a.low), p(a.high)))
    return Iv(low, a.open or low == 0, high)


class Range(object):
    """Intervals of terms, given what is known of the arguments."""

    def __init__(self, known):
        self.known = known
        self.bad = []

    def __call__(self, t):
        if t in self.known:
            return self.known[t]
        if t.op == 'num':
            v = float(t.a[0])
            return Iv(v, False, v)
        if t is mk('glob', 'math.pi') or t.op == 'glob' and t.a[0] in (
                'numpy.pi', 'math.pi'):
            return Iv(math.pi, False, math.pi)
        if t.op == 'poly':
            return self.poly(t)
        if t.op == 'ite':
            return hull(self(t.a[1]), self(t.a[2]))
        if t.op == 'call':
            n = show(t.a[0]).split('.')[-1]
            xs = t.a[1]
            if n in ('float', 'int', 'list', 'array', 'asarray', 'sorted',
                    'unique', 'abs', 'fabs', 'ceil', 'floor', 'round',
                    'rint', 'trunc', 'around') and len(xs) >= 1:
                x = self(xs[0])
                if n in ('abs', 'fabs'):
                    return x if x.low >= 0 else Iv(0., False, INF)
                if n == 'ceil':
                    return Iv(math.ceil(x.low) if x.low > -INF else x.low,
                        False, INF)
                if n in ('floor', 'int', 'trunc'):
                    return Iv(math.floor(x.low) if x.low > -INF else x.low,
                        False, x.high)
                if n in ('round', 'rint', 'around'):
                    return Iv(float(round(x.low)) if x.low > -INF else x.low,
                        False, x.high + 1)
                return x
            if n in ('var', 'std'):
                return Iv(0., False, INF)
            if n == 'exp':
                return Iv(0., True, INF)
            if n == 'sqrt':
                return Iv(0., self(xs[0]).positive(), INF)
            if n in ('max', 'amax', 'min', 'amin'):
                ys = [self(x) for x in xs]
                if len(ys) > 1:
                    if n in ('max', 'amax'):
                        best = max(ys, key=lambda y: (y.low, y.open))
                        return Iv(best.low, best.open, max(y.high
                            for y in ys))
                    return hull(*ys)
                return ys[0]
            if n == 'log_linspace' and len(xs) == 3:
                a, b = self(xs[0]), self(xs[1])
                if not a.positive() or not b.positive():
                    self.bad.append('takes the logarithm of %s' % show(
                        xs[0] if not a.positive() else xs[1]))
                if not self(xs[2]).low >= 1:
                    self.bad.append('has no points')
                return hull(a, b)
            if n == 'linspace' and len(xs) >= 2:
                if len(xs) == 3 and not self(xs[2]).low >= 1:
                    self.bad.append('has no points')
                return hull(self(xs[0]), self(xs[1]))
            if n == 'logspace':
                return Iv(0., True, INF)
            if n == 'arange':
                return self(xs[0]) if len(xs) > 1 else Iv(0., False, INF)
            if n == 'estimate_kappa':
                return Iv(0., True, INF)
        if t.op in ('list', 'tuple') and t.a:
            return hull(*[self(x) for x in t.a])
        if t.op == 'comp':
            return self(t.a[1])
        return ANY

    def poly(self, t):
        out = None
        for mono, c in t.a[0]:
            m = Iv(float(c), False, float(c))
            for base, e in mono:
                if not isinstance(e, (int, Fraction)):
                    return ANY
                m = iv_mul(m, iv_pow(self(base), e))
            out = m if out is None else iv_add(out, m)
        return out or ANY


def inside(iv, dom):
    if dom == '+':
        return iv.positive()
    if dom == 'angle':
        return iv.low >= 0 and iv.high <= 2 * math.pi + 1e-12
    return True


# --------------------------------------------------------------------------

def entries(t):
    """Key -> value of a dictionary built step by step, or None."""
    if t.op == 'setitem':
        d = entries(t.a[0])
        if d is None or (t.a[1].op != 'const'):
            return None
        d[t.a[1].a[1]] = t.a[2]
        return d
    if t.op == 'dict':
        out = {}
        for kv in t.a:
            if not isinstance(kv, tuple) or kv[0].op != 'const':
                return None
            out[kv[0].a[1]] = kv[1]
        return out
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0].split('.')[-1] \
            in ('dict', 'OrderedDict') and len(t.a[1]) <= 1:
        out = entries(t.a[1][0]) if t.a[1] else {}
        if out is not None:
            out.update(dict(t.a[2]))
        return out
    return None


def setter(domains, attrs):
    lines = []
    for k, d in sorted(domains.items()):
        if d == '+':
            lines.append("    assert hypers['%s'] > 0" % k)
        elif d == 'angle':
            lines.append("    assert 0 <= hypers['%s']" % k)
            lines.append("    assert hypers['%s'] <= 2 * pi" % k)
    for k in sorted(domains):
        lines.append("    self.%s = hypers['%s']" % (attrs[k], k))
    return '\n'.join(lines)


def conditions(s, upto=None):
    """Conditions under which the body raises."""
    out = []
    for e in s.events:
        g = and_(*e.guard) if isinstance(e.guard, tuple) else e.guard
        if e.kind == 'raise':
            out.append(g)
        elif e.kind == 'assert':
            out.append(and_(g, not_(e.value)))
    return or_(*out)


def final(s):
    out = {}
    for e in s.writes():
        if e.loc.op == 'attr' and e.loc.a[0] is SELF and e.value is not None:
            g = and_(*e.guard) if isinstance(e.guard, tuple) else e.guard
            if g is not FALSE:
                out[e.loc] = e.value if g is TRUE or e.loc not in out else \
                    ite(g, e.value, out[e.loc])
    return out


def dictionary(d):
    return mk('dict', *[(const(k), v) for k, v in sorted(d.items())])


def reported(ctx, rule, c, what, want):
    f = c.lookup(what)
    d = entries(ctx.summ(f, c).result)
    ok = d is not None and set(d) == set(want) and all(
        v.op == 'attr' and v.a[0] is SELF for v in d.values())
    ctx.check(ok, rule, '%s.%s' % (c.name, what), 'reports %s where the '
        'settable ones are %s' % (show(ctx.summ(f, c).result, limit=80),
        ', '.join(sorted(want))), f.where())
    return d if ok else None


def opposite(t, dom):
    """Conditions that make the value t invalid."""
    if dom == '+':
        return [cmp_('gt', t, const(0))]
    if dom == 'angle':
        return [cmp_('ge', t, const(0)), cmp_('le', t, TWOPI)]
    return []


def built(ctx, rule, c, domains, where, report, others):
    """The constructor takes what is given for each key."""
    f = c.lookup('__init__')
    attrs = {k: v for k, v in report.items()}
    ps = {k: mk('param', 'given_' + k) for k in domains}
    s = ctx.summ(f, c, args=dict(others, **{where: dictionary(ps)}))
    got = final(s)
    for k in sorted(domains):
        v = got.get(attrs[k])
        v = canon(v) if v is not None else v
        ctx.check(v is ps[k], rule, '%s.%s' % (c.name, k),
            'the constructor is given %s but holds %s' % (k, show(v,
            limit=80) if v is not None else 'nothing'), f.where())
    bad = canon(conditions(s))
    for k, dom in sorted(domains.items()):
        for a in opposite(ps[k], dom):
            # Invalid: every path is rejected.
            ctx.check(assume_all(bad, {a: False}) is TRUE, rule,
                '%s.%s invalid' % (c.name, k),
                'the constructor accepts an invalid %s' % k, f.where())
    ok = bad
    for k, dom in sorted(domains.items()):
        for a in opposite(ps[k], dom):
            ok = assume_all(ok, {a: True})
    for k in sorted(domains):
        ctx.check(not contains(ok, ps[k]), rule, '%s.%s valid' % (c.name, k),
            'the constructor rejects a valid %s: %s' % (k, show(ok,
            limit=120)), f.where())
    # Left out: a valid default.
    for empty in (mk('dict'), NONE):
        s = ctx.summ(f, c, args=dict(others, **{where: empty}))
        got = final(s)
        for k, dom in sorted(domains.items()):
            v = got.get(attrs[k])
            r = Range({})(v) if v is not None else ANY
            ctx.check(inside(r, dom) and (dom == '' or r is not ANY), rule,
                '%s.%s default' % (c.name, k), 'the default of %s is %s' % (
                k, show(v, limit=60) if v is not None else 'missing'),
                f.where())


def assume_all(t, facts_):
    for a, v in facts_.items():
        t = assume(t, a, v)
    return canon(t)


def grids(ctx, rule, c, domains, name):
    f = c.lookup('construct_hyper_grids')
    X, n = mk('param', f.params[-2]), mk('param', f.params[-1])
    known = {n: Iv(1., False, INF)}
    low = SUPPORT.get(name)
    known[X] = Iv(low[0], low[1], INF) if low else ANY
    for g in ('len', '__builtin__.len', 'builtins.len'):
        known[mk('call', mk('glob', g), (X,), ())] = Iv(1., False, INF)
    for g in ('numpy.size',):
        known[mk('call', mk('glob', g), (X,), ())] = Iv(1., False, INF)
    s = ctx.summ(f, c, inline=core.boundary('estimate_kappa',
        'log_linspace'))
    d = entries(s.result)
    ctx.check(d is not None and set(d) == set(domains), rule,
        '%s.construct_hyper_grids' % c.name, 'the grids are for %s where the '
        'hyperparameters are %s' % (sorted(d) if d is not None else
        show(s.result, limit=80), sorted(domains)), f.where())
    for k in sorted(d or {}):
        R = Range(known)
        r = R(d[k])
        ctx.check(not R.bad and inside(r, domains.get(k, '')), rule,
            '%s grid of %s' % (c.name, k), 'the grid of %s %s: %s' % (k,
            '; '.join(R.bad) or 'reaches %s' % r, show(d[k], limit=100)),
            f.where())


ALONE = '''
from cgpm.mixtures.dim import Dim

def alone(self, N=None):
    dim = Dim(self.outputs, [-10**8] + self.inputs, cctype=self.name(),
        hypers=self.get_hypers(), distargs=self.get_distargs(), rng=self.rng)
    dim.clusters[0] = self
    dim.transition_hyper_grids(X=self.data.values())
    for _ in xrange(1 if N is None else N):
        dim.transition_hypers()

def alone_conditional(self, N=None):
    dim = Dim(self.outputs, [-10**8] + self.inputs, cctype=self.name(),
        hypers=self.get_hypers(), distargs=self.get_distargs(), rng=self.rng)
    dim.clusters[0] = self
    dim.transition_hyper_grids(X=self.data.x.values())
    for _ in xrange(1 if N is None else N):
        dim.transition_hypers()
'''


def columns(ctx):
    """Hyperparameters shared by the components of a column."""
    k = Kit(ctx, 'column', mixture.KERNEL, 'kernel')
    D = 'mixtures.dim.Dim.'
    k.one(D + 'transition_hypers', 'dim_hypers', 'hyperparameter step')
    k.one(D + 'transition_hyper_grids', 'dim_grids', 'hyperparameter grids')
    k = Kit(ctx, 'column', mixture.BOOKS, 'books')
    k.one(D + 'set_hypers', 'dim_set_hypers', 'setting hyperparameters')
    k = Kit(ctx, 'column', mixture.BUILD, 'build')
    k.one(D + '__init__', 'dim_init', 'construction', fresh=True)
    k = Kit(ctx, 'column', ALONE, 'alone')
    k.one('primitives.distribution.DistributionGpm.transition_hypers',
        'alone', 'hyperparameter steps of a model used alone', stop=('Dim',))
    k.one('regressions.linreg.LinearRegression.transition_hypers',
        'alone_conditional', 'hyperparameter steps of a model '
        'used alone', stop=('Dim',))


def run(ctx):
    ctx.rule('report', 'The hyperparameters a model reports are the ones that '
        'were set, by the constructor or later, under the same names.')
    ctx.rule('reject', 'Invalid hyperparameters are rejected before anything '
        'changes, valid ones never.')
    ctx.rule('grid', 'The values inference proposes for a hyperparameter are '
        'valid ones, for any data with at least one value.')
    ctx.rule('fixed', 'Models with fixed hyperparameters propose none and '
        'ignore new ones.')
    ctx.rule('column', 'The components of a column share its '
        'hyperparameters; a step draws each from its grid given the data.')
    ctx.rule('params', 'Parameters given to the constructor are the ones the '
        'model reports.')
    text = ['from math import pi, log', 'import numpy as np',
        'def spaced(a, b, n):\n'
        '    return np.exp(np.linspace(log(a), log(b), n))',
        'def spaced_log(a, b, n):\n'
        '    return np.logspace(np.log10(a), np.log10(b), n)',
        'def spaced_geom(a, b, n):\n    return np.geomspace(a, b, n)']
    plans = []
    for q, doms in sorted(DOMAINS.items()) + [('linreg', LINREG)]:
        c = ctx.ix.cls('cgpm.primitives.' + q) if q != 'linreg' else \
            ctx.ix.cls('cgpm.regressions.linreg.LinearRegression')
        report = reported(ctx, 'report', c, 'get_hypers', doms)
        grids(ctx, 'grid', c, doms, q.split('.')[0])
        if report is None:
            continue
        if q != 'linreg':
            built(ctx, 'report', c, doms, 'hypers', report,
                {'params': NONE})
        fn = 'set_' + c.name.lower()
        text.append('def %s(self, hypers):\n%s\n' % (fn, setter(doms,
            {k: v.a[1] for k, v in report.items()})))
        plans.append((c, fn))
    text.append('def nothing(self, hypers):\n    return\n')
    K = Kit(ctx, 'report', '\n'.join(text), 'hyper')
    K.fun('utils.general.log_linspace', ['spaced', 'spaced_log',
        'spaced_geom'], 'points evenly spaced on the log scale', rule='grid')
    for c, fn in plans:
        K.one('%s.%s' % (c.module.name[len('cgpm.'):], c.name)
            + '.set_hypers', fn, 'setting hyperparameters', stop=(),
            open=('set_hypers',))
        f = c.lookup('set_hypers')
        s = ctx.summ(f, c)
        last = max([e.seq for e in s.events if e.kind in ('assert',
            'raise')] or [-1])
        first = min([e.seq for e in s.writes()] or [10**9])
        doms = LINREG if c.name == 'LinearRegression' else DOMAINS[
            '%s.%s' % (c.module.name.split('.')[-1], c.name)]
        ps = {k: mk('param', 'given_' + k) for k in doms}
        bad = canon(conditions(ctx.summ(f, c, args={'hypers':
            dictionary(ps)})))
        for k, dom in sorted(doms.items()):
            for a in opposite(ps[k], dom):
                ctx.check(assume_all(bad, {a: False}) is TRUE, 'reject',
                    '%s.set_hypers %s' % (c.name, k), 'an invalid %s is '
                    'accepted' % k, f.where())
        ctx.check(last < first, 'reject', c.name + '.set_hypers',
            'some hyperparameters are set before all are checked', f.where())
    for q in FIXED:
        c = ctx.ix.cls('cgpm.' + q)
        K.one(q + '.set_hypers', 'nothing', 'setting hyperparameters',
            rule='fixed', open=('set_hypers',))
        f = c.lookup('construct_hyper_grids')
        d = entries(ctx.summ(f, c).result)
        ctx.check(d == {}, 'fixed', c.name + '.construct_hyper_grids',
            'proposes values for hyperparameters it keeps fixed', f.where())
    columns(ctx)
    given(ctx, ctx.ix.cls('cgpm.primitives.normal_trunc.NormalTrunc'),
        {'mu': '', 'sigma': '+'})
    given(ctx, ctx.ix.cls('cgpm.primitives.beta.Beta'),
        {'balance': '+', 'strength': '+'})


def given(ctx, c, domains):
    f = c.lookup('__init__')
    report = reported(ctx, 'params', c, 'get_params', domains)
    if report is None:
        return
    ps = {k: mk('param', 'given_' + k) for k in domains}
    s = ctx.summ(f, c, args={'params': dictionary(ps)})
    got = final(s)
    for k in sorted(domains):
        v = got.get(report[k])
        if v is not None:
            for q, d in domains.items():
                if d == '+':
                    v = assume(v, ps[q], True)
                v = assume(v, mk('is', NONE, ps[q]), False)
            v = canon(v)
        ctx.check(v is ps[k], 'params', '%s.%s' % (c.name, k),
            'the constructor is given %s but holds %s' % (k, show(v,
            limit=80) if v is not None else 'nothing'), f.where())
