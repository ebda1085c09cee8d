"""C29: the multivariate normal helper against the textbook formulas."""
from refspec import *        # noqa
from canon import Canon, call1, last
import core

REF = '''
from __future__ import division
import numpy as np
def logpdf(X, Mu, Sigma):
    D = X - Mu
    return -0.5 * np.dot(D, FACTOR(Sigma).solve(D)) \\
        - 0.5 * len(X) * np.log(2 * np.pi) - FACTOR(Sigma).logsqrtdet()

def dlogpdf(X, dX, Mu, dMu, Sigma, dSigma):
    A = FACTOR(Sigma).solve(X - Mu)
    Q = np.outer(A, A) - FACTOR(Sigma).inverse()
    return (np.array([-np.dot(A, d) for d in dX]),
        np.array([np.dot(A, d) for d in dMu]),
        np.array([np.sum(Q * d) / 2 for d in dSigma]))

def conditional(X2, Mu1, Mu2, Sigma11, Sigma12, Sigma21, Sigma22):
    return (Mu1 + np.dot(Sigma12, FACTOR(Sigma22).solve(X2 - Mu2)),
        Sigma11 - np.dot(Sigma12, FACTOR(Sigma22).solve(Sigma21)))
'''


def pull(t):
    """(scalar, rest) of a linear argument, with a canonical sign."""
    if t.op == 'num':
        return t.a[0], const(1)
    if t.op != 'poly':
        return 1, t
    cs = [c for _m, c in t.a[0]]
    if len(cs) == 1:
        k = cs[0]
    else:
        # Sign of the term mentioning the first-created symbol.
        first = min(t.a[0], key=lambda mc: tuple((show(a), e)
            for a, e in mc[0]))
        k = first[1]
    if k == 1:
        return 1, t
    return k, mul(t, mk('num', 1 / k))


def logs(x):
    if x.op == 'poly' and len(x.a[0]) == 1 and x.a[0][0][1] > 0:
        m, k = x.a[0][0]
        r = mk('log', mk('num', k)) if k != 1 else const(0)
        for b, e in m:
            r = add(r, mul(const(e), mk('log', b)))
        return r
    return mk('log', x)


def factor_of(t):
    """Sigma when t denotes the covariance factor of Sigma."""
    if t.op == 'call' and len(t.a[1]) == 1 and last(t.a[0]) in (
            '_covariance_factor', 'FACTOR'):
        return t.a[1][0]
    return None


def linear(vector):
    def T(x):
        if vector and x.op == 'attr' and x.a[1] == 'T':
            return x.a[0]
        if vector and x.op == 'call' and last(x.a[0]) == 'transpose':
            return x.a[1][0] if x.a[1] else x.a[0].a[0]
        return x

    def step(t):
        if t.op == 'attr' and t.a[1] == 'T' and vector:
            return t.a[0]
        if t.op == 'call':
            f, a, kw = t.a
            l = last(f)
            if l in ('dot', 'inner', 'outer', 'vdot', 'matmul') and (
                    len(a) == 2 or len(a) == 1 and f.op == 'attr'):
                x, y = a if len(a) == 2 else (f.a[0], a[0])
                k1, x = pull(T(x))
                k2, y = pull(T(y))
                op = 'outer' if l == 'outer' else 'dot'
                # inverse() applied to a vector is a solve.
                if op == 'dot' and x.op == 'inverse':
                    k3, y = pull(y)
                    return mul(mk('num', k1 * k2 * k3),
                        mk('solve', x.a[0], y))
                if vector and op == 'dot':
                    x, y = sorted((x, y), key=lambda q: show(q, limit=500))
                return mul(mk('num', k1 * k2), mk(op, x, y))
            if f.op == 'attr' and factor_of(f.a[0]) is not None:
                S = factor_of(f.a[0])
                if l == 'solve' and len(a) == 1:
                    k, y = pull(a[0])
                    return mul(mk('num', k), mk('solve', S, y))
                if l == 'inverse':
                    return mk('inverse', S)
                if l == 'logsqrtdet':
                    return mk('logsqrtdet', S)
            if l == 'log' and len(a) == 1:
                return logs(a[0])
            if l in ('float', 'asarray', 'array', 'squeeze', 'item') and \
                    len(a) == 1:
                return a[0]
            if l == 'trace' and len(a) == 1 and a[0].op == 'dot':
                x, y = a[0].a
                return mk('total', mul(x, y))
            if l == 'len' and len(a) == 1 and vector:
                return mk('call', mk('glob', 'len'),
                    (mk('param', '#0'),), ())
        if t.op == 'item' and t.a[1] is const(0) and t.a[0].op == 'attr' \
                and t.a[0].a[1] == 'shape' and vector:
            return mk('call', mk('glob', 'len'), (mk('param', '#0'),), ())
        if t.op == 'sum' and t.a[0].op == 'elem' and len(t.a[1]) == 1 and \
                t.a[1][0][0] is t.a[0].a[0]:
            k, x = pull(t.a[0].a[0])
            return mul(mk('num', k), mk('total', x))
        if t.op == 'sum' and t.a[0].op in ('poly',):
            return None
        return None
    return step


def run(ctx):
    ref = Ref(ctx, REF, 'mvn')
    M = 'cgpm.utils.mvnormal.'
    inl = lambda f, recv, an: f.name != '_covariance_factor'
    rules = {
        'logpdf': ('density', 'log density is -1/2 (x-m)\' S^-1 (x-m) '
            '- n/2 log 2 pi - 1/2 log det S', True),
        'dlogpdf': ('derivative', 'its derivative in x, m and S is -a, a and '
            '1/2 (a a\' - S^-1) with a = S^-1 (x-m)', True),
        'conditional': ('conditional', 'the conditional has mean m1 + S12 '
            'S22^-1 (x2-m2) and covariance S11 - S12 S22^-1 S21', False),
    }
    for n, (rule, text, vec) in sorted(rules.items()):
        ctx.rule(rule, text)
        f = ctx.ix.fn(M + n)
        step = linear(vec)
        r, c, s = form(ctx, f, inline=inl, rewrite=step)
        w, _c, _ = form(ctx, ref.fn(n), inline=inl, rewrite=step)
        c2 = Canon(rewrite=step)
        r, w = c2(r), c2(w)
        rs = r.a if r.op == 'tuple' else (r,)
        ws = w.a if w.op == 'tuple' else (w,)
        if not ctx.check(len(rs) == len(ws), rule, n, 'returns %d values, '
                'not %d' % (len(rs), len(ws)), f.where()):
            continue
        for i, (x, y) in enumerate(zip(rs, ws)):
            ctx.check(x is y, rule, '%s[%d]' % (n, i), 'computes %s instead '
                'of %s' % (show(x, limit=260), show(y, limit=260)),
                f.where())
    factors(ctx, M)


def factors(ctx, M):
    ctx.rule('factor', 'every covariance factor solves with, inverts and '
        'takes the determinant of the covariance it was built from')
    f = ctx.ix.fn(M + '_covariance_factor')
    s = ctx.summ(f, inline=lambda *a: False)
    S = mk('param', positional(f)[0])
    made = {e.name.split('.')[-1]: e for e in s.events if e.kind == 'call'
        and e.args and e.args[0] is S}
    rets = [e.value for e in s.events if e.kind == 'return']
    ctx.check(rets and all(v is not None and v.op in ('new', 'ite', 'call')
        and contains(v, S) for v in rets), 'factor', f.short,
        'does not return a factor of its argument', f.where())
    cs = [c for c in ctx.ix.module('cgpm.utils.mvnormal').classes.values()] \
        if hasattr(ctx.ix, 'module') else [ctx.ix.cls(M + n) for n in (
            'Covariance_Cholesky', 'Covariance_Loser')]
    for c in cs:
        if not all(c.lookup(m) for m in ('solve', 'inverse', 'logsqrtdet')):
            continue
        init = ctx.summ(c.lookup('__init__'), c, inline=lambda *a: True)
        SELF = mk('param', 'self')
        env = {}
        for e in init.events:
            if e.kind == 'write' and e.op == '=':
                env[e.loc] = e.value
        P = mk('param', positional(c.lookup('__init__'))[1])

        def val(m):
            g = c.lookup(m)
            su = ctx.summ(g, c, inline=lambda *a: True)
            r = su.result
            for _ in range(3):
                r = subst(r, env)
            ys = positional(g)[1:]
            return Canon()(subst(r, {mk('param', y): mk('param', '#%d' % i)
                for i, y in enumerate(ys)})), g
        Y = mk('param', '#0')
        r, g = val('solve')
        ctx.check(is_solve(r, P, Y), 'factor', '%s.solve' % c.name,
            'solve computes %s' % show(r, limit=150), g.where())
        r, g = val('inverse')
        ok = r.op == 'call' and last(r.a[0]) in ('inv', 'pinv', 'pinvh') and \
            r.a[1] and r.a[1][0] is P
        eye = [t for t in subterms(r) if t.op == 'call' and
            last(t.a[0]) in ('eye', 'identity')]
        if eye:
            ok = ok or is_solve(r, P, eye[0])
        ctx.check(ok, 'factor', '%s.inverse' % c.name, 'inverse computes %s'
            % show(r, limit=150), g.where())
        r, g = val('logsqrtdet')
        ctx.check(is_half_logdet(r, P), 'factor', '%s.logsqrtdet' % c.name,
            'logsqrtdet computes %s' % show(r, limit=150), g.where())


def is_solve(r, S, Y):
    if r.op in ('unpack', 'item') and (r.a[1] == 0 or r.a[1] is const(0)):
        r0 = r.a[0]
        return r0.op == 'call' and last(r0.a[0]) == 'lstsq' and \
            r0.a[1][:2] == (S, Y)
    if r.op != 'call':
        return False
    l = last(r.a[0])
    if l == 'cho_solve' and len(r.a[1]) == 2:
        return cho(r.a[1][0], S) and r.a[1][1] is Y
    if l == 'solve':
        return r.a[1][:2] == (S, Y)
    return False


def cho(t, S):
    if t.op == 'tuple' and len(t.a) == 2:
        t = t.a[0].a[0] if t.a[0].op in ('unpack', 'item') else t
    return t.op == 'call' and last(t.a[0]) == 'cho_factor' and \
        t.a[1][0] is S


def is_half_logdet(r, S):
    # sum log diag L of a Cholesky factor.
    if r.op == 'sum' and r.a[0].op in ('log', 'elem', 'call'):
        x = r.a[1][0][0] if r.a[0].op == 'elem' else r.a[0]
        y = None
        if x.op == 'call' and last(x.a[0]) == 'log':
            y = x.a[1][0]
        elif x.op == 'log':
            y = x.a[0]
        if y is None:
            return False
        while y.op == 'elem':
            y = y.a[0]
        if y.op == 'call' and last(y.a[0]) in ('diag', 'diagonal'):
            L = y.a[1][0] if y.a[1] else y.a[0].a[0]
            if L.op in ('unpack', 'item') and (L.a[1] == 0 or
                    L.a[1] is const(0)):
                return cho(L.a[0], S)
            return L.op == 'call' and last(L.a[0]) == 'cholesky' and \
                L.a[1][0] is S
        return False
    if r.op == 'poly' and len(r.a[0]) == 1:
        m, k = r.a[0][0]
        if len(m) != 1 or m[0][1] != 1 or k * 2 != 1:
            return False
        x = m[0][0]
        if x.op in ('unpack', 'item') and (x.a[1] == 1 or
                x.a[1] is const(1)):
            return x.a[0].op == 'call' and last(x.a[0].a[0]) == 'slogdet' \
                and x.a[0].a[1][0] is S
        if x.op == 'call' and last(x.a[0]) == 'log':
            d = x.a[1][0]
            return d.op == 'call' and last(d.a[0]) == 'det' and \
                d.a[1][0] is S
    return False
