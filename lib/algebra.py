"""Normal form for log-density terms: log/Gamma identities and the effect of
one observation on sums over recorded data."""
from fractions import Fraction

from terms import *      # noqa
from terms import _aspoly, _mkpoly, _mulmono, _isbool

LOG = {'log'}
LGAMMA = {'lgamma', 'gammaln'}
EXP = {'exp'}


def fname(f):
    if f.op == 'glob':
        return f.a[0].split('.')[-1]
    return None


def _call(name, *args):
    return mk('call', mk('glob', 'math.' + name), tuple(args), ())


def log(t):
    if t.op == 'num':
        v = t.a[0]
        if v == 1:
            return const(0)
        if v > 0:
            # Prime-ish split of rationals: log(p/q) = log p - log q.
            r = const(0)
            for n, sgn in ((v.numerator, 1), (v.denominator, -1)):
                d = 2
                while n > 1 and d < 1000:
                    while n % d == 0:
                        r = add(r, mul(const(sgn), _call('log', const(d))))
                        n //= d
                    d += 1
                if n > 1:
                    r = add(r, mul(const(sgn), _call('log', const(n))))
            return r
        return _call('log', t)
    p = _aspoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            r = log(mk('num', c)) if c != 1 else const(0)
            for a, e in m:
                x = _call('log', a)
                if a.op == 'call' and fname(a.a[0]) == 'exp':
                    x = a.a[1][0]
                elif a.op == 'pow':
                    x = mul(a.a[1], log(a.a[0]))
                elif a.op == 'poly':
                    x = log_poly(a)
                r = add(r, mul(mk('num', Fraction(e)), x))
            return r
        return _call('log', t)
    return log_poly(t)


def log_poly(t):
    """log of a sum: extract the common monomial factor."""
    p = _aspoly(t)
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            for a in list(common):
                pass
    # Negative powers: multiply through by the least common denominator.
    low = {}
    for m in p:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    fac = dict(low)
    for a, e in (common or {}).items():
        if e > 0 and a not in fac:
            fac[a] = e
    if not fac:
        return _call('log', t)
    rest = mul(t, _mkpoly({tuple(sorted(((a, -e) for a, e in fac.items()),
        key=lambda x: x[0].n)): Fraction(1)}))
    rest = expand_pows(rest)
    r = log(rest) if rest is not t else _call('log', rest)
    for a, e in fac.items():
        r = add(r, mul(mk('num', Fraction(e)), log(a)))
    return r


def expand_pows(t):
    """Multiply out positive integer powers of sums."""
    p = _aspoly(t)
    r = const(0)
    for m, c in p.items():
        x = mk('num', c)
        for a, e in m:
            if a.op == 'poly' and e == int(e) and 0 < e <= 4:
                for _ in range(int(e)):
                    x = mul(x, a)
            else:
                x = mul(x, _mkpoly({((a, e),): Fraction(1)}))
        r = add(r, x)
    return r


def lgamma(t):
    p = _aspoly(t)
    k = p.get((), Fraction(0))
    n = int(k // 1)
    if len(p) == 1 and () in p or not p:
        v = k
        if v.denominator == 1 and v >= 1:
            r = const(0)
            for j in range(2, int(v)):
                r = add(r, log(const(j)))
            return r
        return _call('lgamma', t)
    if n == 0 or abs(n) > 6:
        return _call('lgamma', t)
    base = sub(t, const(n))
    r = _call('lgamma', base)
    if n > 0:
        for j in range(n):
            r = add(r, log(add(base, const(j))))
    else:
        for j in range(1, -n + 1):
            r = sub(r, log(sub(base, const(j))))
    return r


def normalise(t, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    op = t.op
    r = t
    if op in ('num', 'const'):
        pass
    elif op == 'poly':
        r = const(0)
        for m, c in t.a[0]:
            x = mk('num', c)
            for a, e in m:
                b = normalise(a, memo)
                if e == int(e):
                    if e > 0:
                        for _ in range(int(e)):
                            x = mul(x, b)
                    else:
                        for _ in range(int(-e)):
                            x = mul(x, inv(b))
                else:
                    x = mul(x, power(b, mk('num', Fraction(e))))
            r = add(r, x)
    elif op == 'glob' and t.a[0] in ('math.pi', 'numpy.pi', 'scipy.pi'):
        r = mk('glob', 'math.pi')
    elif op == 'call' and _scipy(t) is not None:
        r = normalise(_scipy(t), memo)
    elif op == 'call' and not t.a[2]:
        n = fname(t.a[0])
        args = tuple(normalise(x, memo) for x in t.a[1])
        if n in LOG and len(args) == 1:
            r = distribute(args[0], log)
        elif n in LGAMMA and len(args) == 1:
            r = distribute(args[0], lgamma)
        elif n == 'betaln' and len(args) == 2:
            r = sub(add(lgamma(args[0]), lgamma(args[1])),
                lgamma(add(*args)))
        elif n == 'sqrt' and len(args) == 1:
            r = power(args[0], mk('num', Fraction(1, 2)))
        elif n == 'square' and len(args) == 1:
            r = power(args[0], const(2))
        elif n == 'log1p' and len(args) == 1:
            r = distribute(add(const(1), args[0]), log)
        elif n == 'exp' and len(args) == 1:
            r = _call('exp', args[0])
            if args[0].op == 'num' and args[0].a[0] == 0:
                r = const(1)
        elif n in ('abs', 'fabs') and len(args) == 1:
            r = _call('abs', args[0])
        elif n == 'power' and len(args) == 2:
            r = power(*args)
        elif n in ('cos', 'sin', 'i0', 'cosh') and len(args) == 1:
            r = _call(n, args[0])
        elif n == 'float' and len(args) == 1:
            r = args[0]
        else:
            r = mk('call', normalise(t.a[0], memo), args, ())
    elif op == 'sum':
        elt = t.a[0]
        gens0 = t.a[1]
        # Elementwise function of a vector: sum(f(v)) = sum(f(v_i)).
        if elt.op == 'elem' and len(gens0) == 1 and \
                elt.a[0] is gens0[0][0]:
            v = elt.a[0]
            if v.op == 'call' and fname(v.a[0]) in (
                    'lgamma', 'gammaln', 'log', 'exp', 'square') and \
                    len(v.a[1]) == 1:
                w = v.a[1][0]
                elt = mk('call', v.a[0], (mk('elem', w, 0),), ())
                gens0 = ((w, ()),)
            elif v.op == 'poly':
                vs = [a for m, _c in v.a[0] for a, _e in m
                    if _is_vec(a)]
                if len(set(vs)) == 1:
                    elt = subst(v, {vs[0]: mk('elem', vs[0], 0)})
                    gens0 = ((vs[0], ()),)
        if len(gens0) == 1 and not gens0[0][1]:
            g = gens0[0][0]
            if g.op == 'call' and g.a[0].op == 'attr' and \
                    g.a[0].a[1] == 'values' and not g.a[1]:
                d = g.a[0].a[0]
                elt = subst(elt, {mk('elem', g, 0):
                    mk('item', d, mk('elem', d, 0))})
                gens0 = ((d, ()),)
        t = mk('sum', elt, gens0)
        elt = normalise(elt, memo)
        gens = tuple((normalise(s, memo), tuple(normalise(c, memo)
            for c in cs)) for s, cs in t.a[1])
        r = const(0)
        for m, c in _aspoly(elt).items():
            inner = _mkpoly({m: Fraction(1)})
            free, dep = const(1), const(1)
            for a, e in m:
                x = _mkpoly({((a, e),): Fraction(1)})
                if contains_any(a, lambda y: y.op == 'elem' and any(
                        y.a[0] is g[0] or g[0].op == 'call'
                        for g in gens)):
                    dep = mul(dep, x)
                else:
                    free = mul(free, x)
            if dep.op == 'num' and len(gens) == 1 and not gens[0][1]:
                s = mul(dep, length(gens[0][0]))
            else:
                s = mk('sum', dep, gens)
            r = add(r, mul(mul(mk('num', c), free), s))
    else:
        def go(x):
            if isinstance(x, T):
                return normalise(x, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.a)
        if na != t.a:
            r = rebuild(op, na)
    memo[t] = r
    return r


def _is_vec(a):
    return a.op == 'attr' or (a.op == 'call' and a.a[0].op == 'attr'
        and a.a[0].a[1] == 'values')


def _scipy(t):
    """Closed forms of the scipy.stats log densities the sources use."""
    f, args, kw = t.a
    if f.op != 'glob':
        return None
    n = f.a[0]
    if n.startswith('scipy.stats.') and n.endswith('.logpdf'):
        d = n.split('.')[-2]
        kw = dict(kw)
        if d == 'norm' and len(args) >= 1:
            x = args[0]
            loc = args[1] if len(args) > 1 else kw.get('loc', const(0))
            sc = args[2] if len(args) > 2 else kw.get('scale', const(1))
            z = div(sub(x, loc), sc)
            pi = mk('glob', 'math.pi')
            half = mk('num', Fraction(1, 2))
            return sub(sub(neg(mul(half, mul(z, z))), _call('log', sc)),
                mul(half, _call('log', mul(const(2), pi))))
        if d == 'beta' and len(args) == 3 and not kw:
            x, a, b = args
            return add(add(mul(sub(a, const(1)), _call('log', x)),
                mul(sub(b, const(1)), _call('log', sub(const(1), x)))),
                sub(_call('lgamma', add(a, b)),
                    add(_call('lgamma', a), _call('lgamma', b))))
        if d == 'expon' and len(args) == 1:
            sc = kw.get('scale', const(1))
            if set(kw) <= {'scale'}:
                return sub(neg(div(args[0], sc)), _call('log', sc))
        if d == 'uniform' and 1 <= len(args) <= 3:
            sc = args[2] if len(args) > 2 else kw.get('scale', const(1))
            return neg(_call('log', sc))
        if d == 'gamma' and len(args) == 2 and set(kw) <= {'scale'}:
            x, a = args
            sc = kw.get('scale', const(1))
            return sub(sub(sub(mul(sub(a, const(1)), _call('log', x)),
                div(x, sc)), _call('lgamma', a)),
                mul(a, _call('log', sc)))
    return None


def length(s):
    if s.op == 'call' and fname(s.a[0]) in ('range', 'xrange') and \
            len(s.a[1]) == 1:
        return s.a[1][0]
    return mk('call', mk('glob', 'len'), (s,), ())


def distribute(t, f):
    """Push a function over gated values."""
    if t.op == 'ite':
        return ite(t.a[0], distribute(t.a[1], f), distribute(t.a[2], f))
    return f(t)


def lift_ites(t, limit=64):
    """Float gates to the top: list of (conds, leaf)."""
    out = []

    def find(x):
        for y in subterms(x):
            if y.op == 'ite':
                return y
        return None

    def go(x, conds):
        if len(out) > limit:
            raise ValueError('too many gates')
        y = find(x)
        if y is None:
            out.append((conds, x))
            return
        c = y.a[0]
        go(choose(x, c, True), conds + ((c, True),))
        go(choose(x, c, False), conds + ((c, False),))
    go(t, ())
    return out


def choose(x, c, val):
    mp = {}
    for y in subterms(x):
        if y.op == 'ite' and y.a[0] is c:
            mp[y] = y.a[1] if val else y.a[2]
    while mp:
        x = subst(x, mp)
        mp = {}
        for y in subterms(x):
            if y.op == 'ite' and y.a[0] is c:
                mp[y] = y.a[1] if val else y.a[2]
    return x


def iszero(t):
    """Zero test: normal form, then clear denominators of each log-free
    coefficient."""
    t = normalise(t)
    if t.op == 'num':
        return t.a[0] == 0
    # Collect by transcendental part; coefficients are rational functions.
    p = _aspoly(t)
    groups = {}
    for m, c in p.items():
        tr = tuple((a, e) for a, e in m if _transc(a))
        rat = tuple((a, e) for a, e in m if not _transc(a))
        groups.setdefault(tr, []).append((rat, c))
    for tr, terms in groups.items():
        s = _mkpoly(dict(terms))
        if not _ratzero(s):
            return False
    return True


def _transc(a):
    return a.op in ('call', 'sum') and not (a.op == 'call'
        and fname(a.a[0]) in ('len', None))


def _ratzero(s, depth=0):
    if s.op == 'num':
        return s.a[0] == 0
    p = _aspoly(s)
    low = {}
    for m in p:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    if not low:
        q = expand_pows(s)
        return q.op == 'num' and q.a[0] == 0
    if depth > 6:
        return False
    fac = _mkpoly({tuple(sorted(((a, -e) for a, e in low.items()),
        key=lambda x: x[0].n)): Fraction(1)})
    # Multiply term by term so that matching powers cancel.
    r = const(0)
    (fm, _), = _aspoly(fac).items()
    for m, c in p.items():
        r = add(r, _mkpoly({_mulmono(m, fm): c}))
    return _ratzero(expand_pows(r), depth + 1)
