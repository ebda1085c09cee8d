"""Textbook closed forms of the univariate models.

The reference formulas below are written from the literature (conjugate
families in Murphy 2007 / Bernardo & Smith; CRP in Gershman & Blei 2012) and
are parsed by the same front end; each model's methods are compared with them
by normal form.  Statistics, hyperparameters and parameters are identified by
the names the model reports through its accessors, so renamed attributes and
restructured helpers do not matter.
"""
import ast

import front
import interp
from algebra import *       # noqa
from algebra import fname
from front import AnalysisBroken
from terms import *         # noqa
from rules.conj import (registered_classes, Update, apply_update, simplify,
    dnf, target_value, SELF)

SPEC = {
'bernoulli': '''
def stats(x): return {'N': 1, 'x_sum': x}
def score(N, x_sum, alpha, beta):
    return betaln(alpha + x_sum, beta + N - x_sum) - betaln(alpha, beta)
def draw(rng, N, x_sum, alpha, beta):
    return pflip([N - x_sum + beta, x_sum + alpha], rng=rng)
''',
'categorical': '''
def stats(x): return {'N': 1, 'counts': item(x)}
def score(N, counts, alpha, k):
    return lgamma(k * alpha) - lgamma(k * alpha + N) + sum(
        [lgamma(c + alpha) - lgamma(alpha) for c in counts])
def draw(rng, counts, alpha):
    return pflip(counts + alpha, rng=rng)
''',
'crp': '''
def stats(x): return {'N': 1, 'counts': item(x)}
def score(N, counts, alpha):
    return len(counts) * log(alpha) + sum(
        [lgamma(counts[k]) for k in counts]) + lgamma(alpha) - lgamma(
        N + alpha)
''',
'exponential': '''
def stats(x): return {'N': 1, 'sum_x': x}
def score(N, sum_x, a, b):
    return lgamma(a + N) - lgamma(a) + a*log(b) - (a + N)*log(b + sum_x)
def draw(rng, N, sum_x, a, b):
    rate = rng.gamma(a + N, 1./(b + sum_x))
    return rng.exponential(1./rate)
''',
'geometric': '''
def stats(x): return {'N': 1, 'sum_x': x}
def score(N, sum_x, a, b):
    return betaln(a + N, b + sum_x) - betaln(a, b)
def draw(rng, N, sum_x, a, b):
    return rng.geometric(rng.beta(a + N, b + sum_x)) - 1
''',
'poisson': '''
def stats(x): return {'N': 1, 'sum_x': x, 'sum_log_fact_x': lgamma(x + 1)}
def score(N, sum_x, sum_log_fact_x, a, b):
    return (a*log(b) - lgamma(a) + lgamma(a + sum_x)
        - (a + sum_x)*log(b + N) - sum_log_fact_x)
def draw(rng, N, sum_x, a, b):
    return rng.negative_binomial(a + sum_x, (b + N)/(b + N + 1))
''',
'normal': '''
def stats(x): return {'N': 1, 'sum_x': x, 'sum_x_sq': x*x}
def score(N, sum_x, sum_x_sq, m, r, s, nu):
    rn = r + N
    nun = nu + N
    mn = (r*m + sum_x) / rn
    sn = s + sum_x_sq + r*m**2 - rn*mn**2
    return (- (N/2.)*log(pi) + lgamma(nun/2.) - lgamma(nu/2.)
        + (nu/2.)*log(s) - (nun/2.)*log(sn) + .5*log(r) - .5*log(rn))
def draw(rng, N, sum_x, sum_x_sq, m, r, s, nu):
    rn = r + N
    nun = nu + N
    mn = (r*m + sum_x) / rn
    sn = s + sum_x_sq + r*m**2 - rn*mn**2
    rho = rng.gamma(nun/2., 2./sn)
    mu = rng.normal(mn, (rho*rn)**-.5)
    return rng.normal(mu, rho**-.5)
''',
'lognormal': '''
def stats(x):
    return {'N': 1, 'sum_log_x': log(x), 'sum_log_x_sq': log(x)*log(x)}
def score(N, sum_log_x, sum_log_x_sq, m, r, s, nu):
    rn = r + N
    nun = nu + N
    mn = (r*m + sum_log_x) / rn
    sn = s + sum_log_x_sq + r*m**2 - rn*mn**2
    return (- sum_log_x - (N/2.)*log(pi) + lgamma(nun/2.) - lgamma(nu/2.)
        + (nu/2.)*log(s) - (nun/2.)*log(sn) + .5*log(r) - .5*log(rn))
def draw(rng, N, sum_log_x, sum_log_x_sq, m, r, s, nu):
    rn = r + N
    nun = nu + N
    mn = (r*m + sum_log_x) / rn
    sn = s + sum_log_x_sq + r*m**2 - rn*mn**2
    rho = rng.gamma(nun/2., 2./sn)
    mu = rng.normal(mn, (rho*rn)**-.5)
    return exp(rng.normal(mu, rho**-.5))
''',
'vonmises': '''
def stats(x): return {'N': 1, 'sum_sin_x': sin(x), 'sum_cos_x': cos(x)}
def score(N, sum_sin_x, sum_cos_x, a, b, k):
    c = k*sum_cos_x + a*cos(b)
    s = k*sum_sin_x + a*sin(b)
    an = sqrt(c**2 + s**2)
    return -N*(log(2*pi) + log(i0(k))) + log(i0(an)) - log(i0(a))
def draw(rng, N, sum_sin_x, sum_cos_x, a, b, k):
    c = k*sum_cos_x + a*cos(b)
    s = k*sum_sin_x + a*sin(b)
    an = sqrt(c**2 + s**2)
    bn = atan2(s, c)
    mu = rng.vonmises(bn - pi, an) + pi
    return rng.vonmises(mu - pi, k) + pi
''',
'beta': '''
def stats(x):
    return {'N': 1, 'sum_log_x': log(x), 'sum_minus_log_x': log(1 - x)}
def likelihood(N, sum_log_x, sum_minus_log_x, strength, balance):
    a = strength*balance
    b = strength*(1 - balance)
    return (a - 1)*sum_log_x + (b - 1)*sum_minus_log_x - N*betaln(a, b)
def draw(rng, strength, balance):
    return rng.beta(strength*balance, strength*(1 - balance))
''',
'normal_trunc': '''
def stats(x): return {'N': 1, 'sum_x': x, 'sum_x_sq': x*x}
def likelihood(N, sum_x, sum_x_sq, mu, sigma, l, h):
    return (-(N/2.)*log(2*pi) - N*log(sigma)
        - (sum_x_sq - 2*mu*sum_x + N*mu**2)/(2*sigma**2)
        - N*log(norm.cdf(h, mu, sigma) - norm.cdf(l, mu, sigma)))
def draw(rng, mu, sigma, l, h):
    return truncated(rng.normal(mu, sigma), l, h)
''',
}

HEAD = '''
from math import log, lgamma, exp, sin, cos, atan2, sqrt, pi
from scipy.special import betaln, i0
from cgpm.utils.general import pflip, log_pflip
from scipy.stats import norm
'''

LENS = {}            # len(counts) -> k, from the constructor

R_SCORE = 'C03.score'
R_PRED = 'C03.predictive'
R_STAT = 'C03.statistics'
R_DRAW = 'C03.simulation'


def specmod(ctx, key):
    text = HEAD + SPEC[key]
    m = front.Module('spec_%s' % key, 'spec/%s.py' % key,
        front.normal(ast.parse(text)), text)
    m.relpath = 'spec'
    ctx.ix.modules[m.name] = m
    ctx.ix._index_module(m)
    del ctx.ix.modules[m.name]
    return m


def accessors(ctx, c):
    """Reported name -> term, over hypers, params, distargs, suffstats."""
    env = {}
    for g in ('get_distargs', 'get_hypers', 'get_params', 'get_suffstats'):
        f = c.lookup(g)
        if f is None:
            raise AnalysisBroken('%s has no %s' % (c.name, g))
        r = ctx.summ(f, c).result
        if r is None or r.op != 'dict':
            if r is not None and r.op == 'call' and not r.a[1]:
                continue
            raise AnalysisBroken('%s.%s is not a literal mapping'
                % (c.name, g))
        for kv in r.a:
            k, v = kv
            if k.op == 'const':
                env[const_value(k)] = unwrap(v)
    return env


def prior(ctx, c):
    """Log density of the law the constructor draws the parameters from, and
    the attributes the constructor fixes to constants."""
    s = ctx.summ(c.lookup('__init__'), c)
    vals = {}
    for e in s.writes():
        if e.loc.op == 'attr' and e.loc.a[0] is SELF and e.value is not None:
            vals[e.loc] = e.value
    written = set()
    for k in c.mro():
        for mname_, f in k.methods.items():
            if mname_ == '__init__':
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx,
                        ast.Store):
                    written.add(n.attr)
    fixed = {l: v for l, v in vals.items() if v.op == 'num'
        and l.a[1] not in written}
    back = {v: l for l, v in vals.items() if v.op in ('item', 'param')
        or v.op == 'call' and not contains_any(v, lambda y: y.op == 'ite')
        and 'rng' not in show(v, limit=80)}
    pri = const(0)
    params = ctx.summ(c.lookup('get_params'), c).result
    names = [kv[1] for kv in params.a]
    evs = draw_events(s, lambda r: 'rng' in show(r, limit=80))
    for loc in names:
        hit = [e for e in evs if vals.get(loc) is not None and
            contains(vals[loc], value(e))]
        if len({repr(canon_draw(e)) for e in hit}) != 1:
            raise AnalysisBroken('%s: prior draw of %s not identified'
                % (c.name, show(loc)))
        n, d = canon_draw(hit[0])
        d = {k: subst(v, back) for k, v in d.items()}
        x = loc
        if n == 'gamma':
            t = sub(sub(sub(mul(sub(d['shape'], const(1)), log(x)),
                div(x, d['scale'])), lgamma(d['shape'])),
                mul(d['shape'], log(d['scale'])))
        elif n == 'exponential':
            t = sub(neg(div(x, d['scale'])), log(d['scale']))
        elif n == 'uniform':
            t = neg(log(sub(d['high'], d['low'])))
        elif n == 'beta':
            t = add(add(mul(sub(d['a'], const(1)), log(x)),
                mul(sub(d['b'], const(1)), log(sub(const(1), x)))),
                sub(lgamma(add(d['a'], d['b'])),
                    add(lgamma(d['a']), lgamma(d['b']))))
        elif n == 'normal':
            raise AnalysisBroken('normal prior')
        else:
            raise AnalysisBroken('%s: prior %s has no known density'
                % (c.name, n))
        pri = add(pri, subst(t, fixed))
    return pri, fixed


def lens(ctx, c):
    LENS.clear()
    s = ctx.summ(c.lookup('__init__'), c)
    vals = {}
    for e in s.writes():
        if e.loc.op == 'attr' and e.loc.a[0] is SELF and e.value is not None:
            vals[e.loc] = e.value
    for loc, v in vals.items():
        if v.op == 'call' and fname(v.a[0]) == 'zeros' and v.a[1]:
            for l2, v2 in vals.items():
                if v2 is v.a[1][0] or unwrap(v2) is unwrap(v.a[1][0]):
                    for nm in ('len', '__builtin__.len', 'builtins.len'):
                        LENS[mk('call', mk('glob', nm), (loc,), ())] = l2


def unwrap(v):
    """list(self.counts), self.counts.items() -> self.counts."""
    while True:
        if v.op == 'call' and fname(v.a[0]) in ('list', 'dict', 'tuple',
                'copy', 'deepcopy', 'int', 'float', 'OrderedDict') and \
                len(v.a[1]) == 1:
            v = v.a[1][0]
        elif v.op == 'call' and v.a[0].op == 'attr' and \
                str(v.a[0].a[1]).split('@')[0] in ('items', 'copy',
                    'tolist') and not v.a[1]:
            v = v.a[0].a[0]
        else:
            return v


def spec(ctx, m, fn, env, extra=None):
    f = m.functions.get(fn)
    if f is None:
        return None
    args = {}
    for p in f.params:
        if extra and p in extra:
            args[p] = extra[p]
        elif p in env:
            args[p] = env[p]
        else:
            raise AnalysisBroken('%s: no accessor reports %r'
                % (m.name, p))
    an = ctx.analyzer()
    return an.summarize(f, args=args)


def gates_off(t):
    """Numeric escape hatches (x == 0 of a positive quantity, isinf, isnan)
    are read at their generic value."""
    for _ in range(20):
        mp = {}
        for y in subterms(t):
            if y.op == 'ite':
                c = y.a[0]
                n = c.a[0] if c.op == 'not' else c
                if n.op == 'call' and fname(n.a[0]) in ('isinf', 'isnan'):
                    mp[c] = FALSE if c is n else TRUE
                elif n.op in ('or', 'and') and all(
                        z.op == 'call' and fname(z.a[0]) in ('isinf',
                            'isnan') for z in n.a):
                    mp[c] = FALSE if c is n else TRUE
        if not mp:
            return t
        t = subst(t, mp)
    return t


def zero_gates(t, keep=()):
    """Equality tests of a compound quantity with zero: generic case."""
    for _ in range(20):
        mp = {}
        for y in subterms(t):
            if y.op == 'ite':
                c = y.a[0]
                n = c.a[0] if c.op == 'not' else c
                if n.op == 'eq' and n not in keep:
                    a, b = n.a
                    z = a if a.op == 'num' else b if b.op == 'num' else None
                    o = b if z is a else a
                    if z is not None and z.a[0] == 0 and o.op == 'poly' \
                            and len(o.a[0]) > 1:
                        mp[c] = FALSE if c is n else TRUE
                elif n.op == 'ne' and n not in keep:
                    a, b = n.a
                    z = a if a.op == 'num' else b if b.op == 'num' else None
                    o = b if z is a else a
                    if z is not None and z.a[0] == 0 and o.op == 'poly' \
                            and len(o.a[0]) > 1:
                        mp[c] = TRUE if c is n else FALSE
        if not mp:
            return t
        t = subst(t, mp)
    return t


def angles(t):
    """Phi(z) and atan2 in one orientation (angles are read modulo 2 pi)."""
    pi = mk('glob', 'math.pi')
    mp = {}
    for y in subterms(t):
        if y.op != 'call' or y.a[0].op != 'glob':
            continue
        n = y.a[0].a[0]
        if n.endswith('norm.cdf') and y.a[1]:
            kw = dict(y.a[2])
            ar = list(y.a[1])
            loc = ar[1] if len(ar) > 1 else kw.get('loc', const(0))
            sc = ar[2] if len(ar) > 2 else kw.get('scale', const(1))
            mp[y] = mk('call', mk('glob', 'Phi'),
                (normalise(div(sub(ar[0], loc), sc)),), ())
        elif fname(y.a[0]) in ('atan2', 'arctan2') and len(y.a[1]) == 2:
            p, q = y.a[1]
            f = mk('glob', 'math.atan2')
            if show(p, limit=4000) <= show(q, limit=4000):
                mp[y] = mk('call', f, (p, q), ())
            else:
                mp[y] = sub(mul(mk('num', Fraction(1, 2)), pi),
                    mk('call', f, (q, p), ()))
    return subst(t, mp) if mp else t


def equal(a, b):
    d = zero_gates(gates_off(sub(a, b)))
    d = angles(subst(d, LENS))
    d = normalise(d)
    if LENS:
        d = normalise(subst(d, LENS))
    d = zero_gates(gates_off(d))
    bad = []
    for conds, leaf in lift_ites(d):
        if not iszero(leaf):
            bad.append((conds, leaf))
    return bad


def one(ctx, key, c):
    m = specmod(ctx, key)
    env = accessors(ctx, c)
    where = c.lookup('logpdf').where()
    name = c.name
    lens(ctx, c)
    # -- sufficient statistics
    inc = ctx.summ(c.lookup('incorporate'), c)
    up = Update(inc)
    xmap = {mk('param', 'observation'): mk('param', 'targets')}
    X = target_value()
    st = spec(ctx, m, 'stats', env, {'x': X}).result
    deltas = {const_value(kv[0]): kv[1] for kv in st.a}
    guard = subst(and_(*inc.end.guard), xmap)
    ok = True
    for k, d in sorted(deltas.items()):
        loc = env.get(k)
        if loc is None:
            raise AnalysisBroken('%s does not report %s' % (name, k))
        if d.op == 'call' and fname(d.a[0]) == 'item' or d.op == 'call' and \
                d.a[0].op in ('glob', 'builtin', 'unbound') and \
                'item' in str(d.a[0].a[0]):
            w = up.items.get(loc)
            good = w is not None
            if good:
                idx, new = subst(w[0], xmap), subst(w[1], xmap)
                cell = mk('item', loc, idx)
                dd = simplify(sub(new, cell), {mk('in', idx, loc): TRUE})
                de = simplify(new, {mk('in', idx, loc): FALSE})
                good = unwrap(idx) is X and iszero(normalise(
                    sub(dd, const(1)))) and (iszero(normalise(
                    sub(de, const(1)))) or not contains(new,
                        mk('in', idx, loc)))
        else:
            v = up.scalars.get(loc)
            good = v is not None
            if good:
                v = subst(v, xmap)
                v = normal_case(v)
                good = not equal(sub(v, loc), d)
        ok &= ctx.check(good, R_STAT, '%s.%s' % (name, k),
            'observing x does not add %s to the reported statistic %s' % (
                show(d, limit=80), k), c.lookup('incorporate').where())
    # -- marginal likelihood
    sc = ctx.summ(c.lookup('logpdf_score'), c).result
    ref = spec(ctx, m, 'score', env)
    if ref is not None:
        bad = equal(sc, ref.result)
        ctx.check(not bad, R_SCORE, name, 'logpdf_score differs from the '
            'closed form by %s' % (show(bad[0][1], limit=300) if bad else ''),
            c.lookup('logpdf_score').where())
    else:
        ref = spec(ctx, m, 'likelihood', env)
        pri, fixed = prior(ctx, c)
        bad = equal(subst(sc, fixed), add(subst(ref.result, fixed), pri))
        ctx.check(not bad, R_SCORE, name, 'logpdf_score differs from the '
            'likelihood plus the density of the law the parameters are drawn '
            'from by %s' % (show(bad[0][1], limit=300) if bad else ''),
            c.lookup('logpdf_score').where())
    # -- predictive density from the reference
    lp = ctx.summ(c.lookup('logpdf'), c).result
    base = ref.result
    if key in ('categorical', 'crp'):
        predictive_counts(ctx, key, c, lp, env, X)
    else:
        smap = {}
        for k, d in deltas.items():
            smap[env[k]] = add(env[k], d)
        want = sub(subst(base, smap), base)
        checked = 0
        bad = None
        for conds, leaf in lift_ites(gates_off(zero_gates(lp)), 64):
            if leaf.op in ('ninf',) or is_ninf(leaf):
                continue
            leaf = canon_cdf(leaf)
            w = want
            eqs = point(conds, X)
            b = equal(subst(leaf, eqs) if eqs else leaf,
                subst(w, eqs) if eqs else w)
            checked += 1
            if b:
                if eqs is None or (not eqs and discrete_gap(conds, X)):
                    # split 0/1-valued target
                    b0 = [z for v in (0, 1) if consistent(conds, X, v)
                        for z in equal(subst(leaf, {X: const(v)}),
                            subst(w, {X: const(v)}))]
                    if not b0:
                        continue
                    b = b0
                bad = b
                break
        if not checked:
            raise AnalysisBroken('%s: no density case' % name)
        ctx.check(not bad, R_PRED, name, 'logpdf differs from the textbook '
            'predictive by %s' % (show(bad[0][1], limit=300) if bad else ''),
            where)
    # -- simulation
    draws(ctx, key, c, m, env)


def is_ninf(t):
    return t.op == 'const' and str(const_value(t)) == '-inf' or \
        'inf' in show(t, limit=30) and t.op in ('const', 'neg', 'poly', 'num',
            'inf', 'call') and len(show(t, limit=200)) < 30


def point(conds, X):
    for c, v in conds:
        if v and c.op == 'eq':
            if c.a[0] is X and is_const(c.a[1]):
                return {X: c.a[1]}
            if c.a[1] is X and is_const(c.a[0]):
                return {X: c.a[0]}
    return {}


def consistent(conds, X, v):
    for c, b in conds:
        d = subst(c, {X: const(v)})
        if d is (FALSE if b else TRUE):
            return False
    return True


def discrete_gap(conds, X):
    return any(c.op in ('in', 'or', 'eq') and contains(c, X)
        for c, v in conds)


def normal_case(v):
    """Drop clamps of the observed value (decided by C04)."""
    for _ in range(6):
        for y in subterms(v):
            if y.op == 'ite' and contains_any(y.a[0], lambda z:
                    z.op == 'call' and fname(z.a[0]) in ('allclose',
                        'isclose')):
                v = subst(v, {y.a[0]: FALSE})
                break
        else:
            return v
    return v


def canon_cdf(t):
    """log(Phi(h) - Phi(l)) in the spellings the sources use."""
    mp = {}
    for y in subterms(t):
        if y.op == 'call' and fname(y.a[0]) in ('logexp_minus_logexp',):
            pass
    return t


def predictive_counts(ctx, key, c, lp, env, X):
    """log((n_x + alpha) / (N + K alpha)) / CRP predictive."""
    N, counts, alpha = env['N'], env['counts'], env['alpha']
    where = c.lookup('logpdf').where()
    bad = None
    seen = 0
    for conds, leaf in lift_ites(lp, 64):
        if is_ninf(leaf) or leaf.op == 'num':
            continue
        idxs = {y.a[1] for y in subterms(leaf) if y.op == 'item'
            and y.a[0] is counts and unwrap(y.a[1]) is X}
        if key == 'categorical':
            tot = mk('sum', mk('elem', counts, 0), ((counts, ()),))
            k = env['k']
            leaf = normalise(leaf)
            lens = [y for y in subterms(leaf) if y.op == 'call' and
                fname(y.a[0]) == 'len' and y.a[1] == (counts,)]
            leaf = subst(leaf, {l: k for l in lens})
            idx = idxs.pop() if idxs else X
            opts = []
            for den in sums(counts) + [N]:
                opts.append(sub(log(add(mk('item', counts, idx), alpha)),
                    log(add(den, mul(k, alpha)))))
            good = any(not equal(leaf, o) for o in opts)
        else:
            num = mk('item', counts, idxs.pop()) if idxs else alpha
            good = not equal(leaf, sub(log(num), log(add(N, alpha))))
            if good:
                # fresh table iff not in counts
                pres = [v for cnd, v in conds if cnd.op == 'in' and
                    cnd.a[1] is counts]
                good = pres == [num is not alpha] or any(
                    p == (num is not alpha) for p in pres)
        seen += 1
        if not good:
            bad = leaf
    if not seen:
        raise AnalysisBroken('%s: no density case' % c.name)
    ctx.check(bad is None, R_PRED, c.name, 'predictive density is %s' % (
        show(bad, limit=200) if bad is not None else ''), where)


def sums(counts):
    e = mk('elem', counts, 0)
    return [mk('sum', e, ((counts, ()),)), mk('sum', mk('item', counts, e),
        ((counts, ()),))]


SIG = {
    'normal': ('loc', 'scale'), 'gamma': ('shape', 'scale'),
    'exponential': ('scale',), 'beta': ('a', 'b'), 'geometric': ('p',),
    'negative_binomial': ('n', 'p'), 'vonmises': ('mu', 'kappa'),
    'uniform': ('low', 'high'), 'binomial': ('n', 'p'), 'poisson': ('lam',),
    'chisquare': ('df',), 'standard_normal': (), 'random_sample': (),
    'rand': (), 'choice': ('a', 'size', 'replace', 'p'),
    'lognormal': ('mean', 'sigma'), 'standard_gamma': ('shape',),
    'randint': ('low', 'high'), 'standard_t': ('df',),
}
DEFAULTS = {('normal', 'loc'): 0, ('normal', 'scale'): 1,
    ('gamma', 'scale'): 1, ('exponential', 'scale'): 1,
    ('uniform', 'low'): 0, ('uniform', 'high'): 1, ('lognormal', 'mean'): 0,
    ('lognormal', 'sigma'): 1}


def draw_events(s, rngok):
    out = []
    for e in s.events:
        if e.kind != 'call' or e.inlined:
            continue
        n = (e.name or '').split('@')[0]
        if e.recv is not None and rngok(e.recv) and n in SIG:
            out.append(e)
        elif n in ('pflip', 'log_pflip'):
            out.append(e)
    return out


def canon_draw(e):
    n = (e.name or '').split('@')[0]
    kw = dict(e.kw or ())
    if n in ('pflip', 'log_pflip'):
        names = ('p', 'array', 'size', 'rng')
    else:
        names = SIG[n]
    d = {}
    args = list(e.args)
    if e.recv is not None and args and args[0] is e.recv:
        args = args[1:]
    for k, a in zip(names, args):
        d[k] = a
    d.update(kw)
    for k in names:
        if k not in d and (n, k) in DEFAULTS:
            d[k] = const(DEFAULTS[(n, k)])
    d.pop('rng', None)
    if n == 'log_pflip':
        n = 'pflip'
        d['p'] = ('log', d['p'])
    elif n == 'pflip':
        d['p'] = ('lin', d['p'])
    if n == 'lognormal':
        n, d = 'exp-normal', {'loc': d['mean'], 'scale': d['sigma']}
    return n, d


def draws(ctx, key, c, m, env):
    f = c.lookup('simulate')
    s = ctx.summ(f, c)
    where = f.where()
    rowid = mk('param', 'rowid')
    held = mk('attr', SELF, 'data')
    facts = {mk('in', rowid, held): FALSE}
    res = simplify(s.result, {mk('in', rowid, held): TRUE})
    ctx.check(field(res) is mk('item', held, rowid), R_DRAW,
        c.name + ' recorded', 'a recorded row is not simulated as its '
        'recorded value of the target', where)
    if key == 'crp':
        return crp_draw(ctx, c, s, env, where,
            field(simplify(s.result, facts)))
    res = simplify(s.result, facts)
    res = field(res)
    if res is None:
        ctx.violation(R_DRAW, c.name, 'a fresh row is not simulated as one '
            'value of the target', where)
        return
    rng = [mk('attr', SELF, 'rng')]
    ev = draw_events(s, lambda r: r in rng or 'rng' in show(r, limit=60))
    rp = spec(ctx, m, 'draw', env, {'rng': mk('param', 'rng')})
    rev = draw_events(rp, lambda r: r is mk('param', 'rng'))
    rres = rp.result
    if len(ev) != len(rev):
        ctx.violation(R_DRAW, c.name, 'simulate makes %d random draws where '
            'the generative process makes %d' % (len(ev), len(rev)), where)
        return
    ma, mb = {}, {}
    for i, (a, b) in enumerate(zip(ev, rev)):
        ph = mk('param', 'draw%d' % i)
        na, da, xa = standard(canon_draw(a), ph)
        nb, db, xb = standard(canon_draw(b), ph)
        if na != nb or set(da) != set(db):
            ctx.violation(R_DRAW, c.name, 'draw %d is %s(%s), the generative '
                'process draws %s(%s)' % (i, na, ', '.join(sorted(da)), nb,
                    ', '.join(sorted(db))), where)
            return
        for k in da:
            va, vb = da[k], db[k]
            if k == 'p' and na == 'pflip':
                good = weights(va, vb)
            else:
                good = not equal(subst(va, ma), subst(vb, mb))
            if not good:
                ctx.violation(R_DRAW, '%s.%s.%s' % (c.name, na, k),
                    'parameter %s of the %s draw is %s, textbook %s' % (k, na,
                        show2(va), show2(vb)), where)
                return
        ma[value(a)] = subst(xa, ma)
        mb[value(b)] = subst(xb, mb)
    if key == 'normal_trunc':
        good = truncation(s, ev, env, rres) and not equal(ma[value(ev[0])],
            mb[value(rev[0])])
        ctx.check(good, R_DRAW, c.name, 'the draw is not accepted exactly '
            'inside the truncation bounds', where)
        return
    ra, rb = subst(res, ma), subst(rres, mb)
    ctx.check(not equal(ra, rb), R_DRAW, c.name, 'simulated value is %s of '
        'the draws, textbook %s' % (show(ra, limit=120), show(rb, limit=120)),
        where)


def standard(draw, ph):
    """Location-scale families as an affine image of their standard draw."""
    n, d = draw
    d = dict(d)
    if n == 'normal':
        return 'Z', {}, add(d.pop('loc'), mul(d.pop('scale'), ph))
    if n == 'standard_normal':
        return 'Z', {}, ph
    if n == 'exp-normal':
        return 'Z', {}, mk('call', mk('glob', 'math.exp'),
            (add(d['loc'], mul(d['scale'], ph)),), ())
    if n == 'exponential':
        return 'E', {}, mul(d['scale'], ph)
    if n in ('gamma', 'standard_gamma'):
        sc = d.pop('scale', const(1))
        return 'G', d, mul(sc, ph)
    if n == 'uniform':
        return 'U', {}, add(d['low'], mul(sub(d['high'], d['low']), ph))
    if n in ('rand', 'random_sample'):
        return 'U', d, ph
    if n == 'vonmises':
        mu = d.pop('mu')
        return 'V', d, add(mu, ph)
    return n, d, ph


def show2(v):
    return show(v[1] if isinstance(v, tuple) else v, limit=150)


def value(e):
    return mk('call', e.fn, tuple(e.args), interp._kw(dict(e.kw or ())))


TARGET = [mk('item', x, const(0)) for x in (mk('attr', SELF, 'outputs'),
    mk('param', 'targets'))]


def field(res):
    """Value of a single-entry dict result."""
    if res is not None and res.op == 'dict' and len(res.a) == 1 and \
            res.a[0][0] in TARGET:
        return res.a[0][1]
    return None


def weights(va, vb):
    """Proportional weight vectors."""
    ta, a = va
    tb, b = vb

    def logs(t, v):
        if v.op == 'list':
            return [x if t == 'log' else log(x) for x in v.a]
        return None
    la, lb = logs(ta, a), logs(tb, b)
    if la is not None and lb is not None:
        if len(la) != len(lb):
            return False
        d = [normalise(sub(x, y)) for x, y in zip(la, lb)]
        return all(iszero(normalise(sub(x, d[0]))) for x in d)
    if ta == tb:
        if not equal(a, b):
            return True
        if ta == 'lin':
            r = div(normalise(a), normalise(b))
            return not contains_any(r, lambda y: y.op in ('elem',)) and \
                not equal(r, r) and r.op == 'num'
    return False


def truncation(s, ev, env, rres):
    rets = [e for e in s.events if e.kind == 'return' and e.value is not None
        and field(e.value) is not None and contains(e.value, value(ev[0]))]
    x = value(ev[0])
    l, h = env['l'], env['h']
    if not rets:
        return False
    for e in rets:
        if field(e.value) is not x:
            return False
        g = and_(*e.guard)
        if simplify(g, {}) is FALSE:
            return False
        lo = {cmp_('le', l, x), cmp_('lt', l, x)}
        hi = {cmp_('le', x, h), cmp_('lt', x, h)}
        atoms = set(g.a if g.op == 'and' else (g,))
        if not (atoms & lo) or not (atoms & hi):
            return False
    return True


def crp_draw(ctx, c, s, env, where, got):
    """Existing tables by their counts, one fresh table by alpha."""
    evs = draw_events(s, lambda r: 'rng' in show(r, limit=60))
    counts, alpha, N = env['counts'], env['alpha'], env['N']
    if len(evs) != 1 or evs[0].name.split('@')[0] not in ('pflip',
            'log_pflip'):
        ctx.violation(R_DRAW, c.name, 'a fresh row is not one categorical '
            'draw over tables', where)
        return
    n, d = canon_draw(evs[0])
    kind, w = d['p']
    arr = d.get('array')
    why = None
    if got is not value(evs[0]):
        why = 'the simulated table is not the one drawn'
    elif arr is None:
        why = 'tables are not labelled'
    else:
        for conds, K in lift_ites(arr):
            if K.op == 'append':
                K = mk('concat', K.a[0], mk('list', K.a[1]))
            nonempty = [v for cnd, v in conds if cnd is counts or (
                cnd.op in ('truth', 'bool') and cnd.a[0] is counts)]
            if K.op == 'list' and all(is_const(x) for x in K.a):
                if len(K.a) != 1:
                    why = 'an empty restaurant offers %d tables' % len(K.a)
                continue
            if K.op == 'concat' and len(K.a) == 2 and K.a[1].op == 'list' \
                    and len(K.a[1].a) == 1:
                base, fresh = K.a[0], K.a[1].a[0]
                src = base
                while src.op == 'call' and src.a[1]:
                    src = src.a[1][0]
                if src.op == 'call' and src.a[0].op == 'attr':
                    src = src.a[0].a[0]
                if src is not counts:
                    why = 'offered tables are %s' % show(base, limit=60)
                mx = mk('call', mk('glob', 'max'), (counts,), ())
                dd = [y for y in subterms(fresh) if y.op == 'call' and
                    fname(y.a[0]) == 'max']
                off = normalise(sub(fresh, dd[0])) if dd else None
                if off is None or off.op != 'num' or off.a[0] <= 0:
                    why = 'the fresh table %s may already be occupied' % \
                        show(fresh, limit=60)
            else:
                why = 'offered tables are %s' % show(K, limit=80)
    if why is None:
        if w.op != 'comp' or len(w.a[2] if len(w.a) > 2 else ()) < 1:
            why = 'weights are not per table'
        else:
            elt, gens = w.a[1], w.a[2]
            src = gens[0][0]
            if src is not arr:
                why = 'weights range over %s' % show(src, limit=60)
            else:
                for conds, leaf in lift_ites(elt):
                    leaf = leaf if kind == 'log' else log(leaf)
                    idx = {y for y in subterms(leaf) if y.op == 'item' and
                        y.a[0] is counts}
                    inn = [v for cnd, v in conds if cnd.op == 'in' and
                        cnd.a[1] is counts]
                    num = idx.pop() if idx else alpha
                    if inn and inn[0] != (num is not alpha):
                        why = 'occupied and fresh tables are confused'
                    dlt = normalise(sub(leaf, log(num)))
                    if contains_any(dlt, lambda y: y.op == 'elem') or \
                            not (iszero(dlt) or not equal(dlt,
                                neg(log(add(N, alpha))))):
                        why = 'table weight is %s' % show(leaf, limit=100)
    ctx.check(why is None, R_DRAW, c.name, 'table simulation: %s' % why,
        where)


def run(ctx):
    ctx.rule(R_STAT, 'observing x adds exactly the textbook increment to each '
        'reported sufficient statistic')
    ctx.rule(R_SCORE, 'the marginal likelihood has the normal form of the '
        'textbook closed form in the reported statistics and hyperparameters')
    ctx.rule(R_PRED, 'the predictive density is the textbook posterior '
        'predictive in every gated case of the support')
    ctx.rule(R_DRAW, 'simulate draws from the textbook generative process: '
        'same distributions, parameters and final transformation')
    n = 0
    for k, (mm, name, c) in sorted(registered_classes(ctx).items()):
        if c is None:
            raise AnalysisBroken('registered class %s.%s not found'
                % (mm, name))
        if c.name in DONE(c):
            continue
        key = cname(ctx, c)
        if key in SPEC:
            one(ctx, key, c)
            n += 1
    ctx.require(n, 11, 'models with a closed form')


def DONE(c):
    return ()


def cname(ctx, c):
    f = c.lookup('name')
    if f is None:
        return None
    r = ctx.summ(f, c).result
    return const_value(r) if r is not None and r.op == 'const' else None
