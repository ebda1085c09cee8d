"""Hash-consed, normalised terms used by the dataflow analysis.

A term denotes a value computed by the analysed program.  Arithmetic is kept
as polynomials over opaque atoms with rational coefficients, comparisons and
boolean connectives in a canonical form, so that syntactic variants of one
computation (x*x / x**2, a<b / not b<=a, k-1 / -1+k ...) are one term.
"""
from fractions import Fraction

_TABLE = {}


class T(object):
    __slots__ = ('op', 'a', 'n', '_atoms')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_TABLE)
        t._atoms = None
        _TABLE[key] = t
    return t


class _K(object):
    """Constant wrapper: keeps True/1/1.0 apart where it matters."""


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) \
            or v is Ellipsis:
        return mk('const', type(v).__name__, v)
    if isinstance(v, (int, float)):
        if isinstance(v, float):
            if v != v or v in (float('inf'), -float('inf')):
                return mk('const', 'float', repr(v))
            v = Fraction(repr(v))
        return mk('num', Fraction(v))
    return mk('const', type(v).__name__, repr(v))


def is_const(t):
    return t.op in ('const', 'num')


def const_value(t):
    if t.op == 'num':
        v = t.a[0]
        return int(v) if v.denominator == 1 else float(v)
    if t.op == 'const':
        return t.a[1]
    raise ValueError(t)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)

# ---------------------------------------------------------------------------
# Arithmetic.  poly: ('poly', ((mono, coef), ...)), mono: ((atom, exp), ...).


def _aspoly(t):
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return mk('num', Fraction(0))
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(),
        key=lambda mc: tuple((a.n, e) for a, e in mc[0]))))


def add(x, y):
    d = _aspoly(x)
    for m, c in _aspoly(y).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(x):
    return _mkpoly({m: -c for m, c in _aspoly(x).items()})


def sub(x, y):
    return add(x, neg(y))


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
        key=lambda ae: ae[0].n))


def mul(x, y):
    px, py = _aspoly(x), _aspoly(y)
    if len(px) * len(py) > 64:
        return mk('bigmul', *sorted((x, y), key=lambda t: t.n))
    d = {}
    for m1, c1 in px.items():
        for m2, c2 in py.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def inv(x):
    if x.op == 'num':
        if x.a[0] == 0:
            return mk('inv0')
        return mk('num', 1 / x.a[0])
    p = _aspoly(x)
    if len(p) == 1:
        (m, c), = p.items()
        return _mkpoly({tuple((a, -e) for a, e in m): 1 / c})
    return _mkpoly({((x, -1),): Fraction(1)})


def div(x, y):
    return mul(x, inv(y))


def power(x, y):
    if y.op == 'num' and y.a[0].denominator == 1 and abs(y.a[0]) <= 6:
        e = int(y.a[0])
        if e == 0:
            return mk('num', Fraction(1))
        p = _aspoly(x)
        if len(p) == 1:
            (m, c), = p.items()
            return _mkpoly({tuple((a, x * e) for a, x in m): c ** e})
        if len(p) == 1 or 0 < e <= 3:
            r = x if e > 0 else inv(x)
            out = r
            for _ in range(abs(e) - 1):
                out = mul(out, r)
            return out
    if y.op == 'num' and y.a[0].denominator <= 4 and abs(y.a[0]) <= 6:
        p = _aspoly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1:
                return _mkpoly({tuple((a, e * y.a[0]) for a, e in m): c})
            if c > 0 and m and y.a[0] < 0:
                return inv(power(x, mk('num', -y.a[0])))
            if c > 0 and m:
                return mul(mk('pow', mk('num', c), y), _mkpoly(
                    {tuple((a, e * y.a[0]) for a, e in m): Fraction(1)}))
        elif len(p) > 1:
            return _mkpoly({((x, y.a[0]),): Fraction(1)})
    return mk('pow', x, y)

# ---------------------------------------------------------------------------
# Booleans.


def not_(t):
    if t.op == 'not':
        return t.a[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.a])
    if t.op == 'lt':
        return cmp_('le', t.a[1], t.a[0])
    if t.op == 'le':
        return cmp_('lt', t.a[1], t.a[0])
    if t.op == 'allq':
        return mk('anyq', not_(t.a[0]), t.a[1])
    if t.op == 'anyq':
        return mk('allq', not_(t.a[0]), t.a[1])
    if t.op == 'ite':
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk('not', t)


def _nary(op, unit, zero, xs):
    s = []
    for x in xs:
        if x is unit:
            continue
        if x.op == op:
            for y in x.a:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    for x in s:
        if x is zero or (x.op == 'not' and x.a[0] in s):
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    return mk(op, *sorted(s, key=lambda t: t.n))


def and_(*xs):
    return _nary('and', TRUE, FALSE, xs)


def or_(*xs):
    return _nary('or', FALSE, TRUE, xs)


def cmp_(op, x, y):
    if op == 'gt':
        return cmp_('lt', y, x)
    if op == 'ge':
        return cmp_('le', y, x)
    if op == 'ne':
        return not_(cmp_('eq', x, y))
    if op == 'isnot':
        return not_(cmp_('is', x, y))
    if op == 'notin':
        return not_(cmp_('in', x, y))
    if op in ('eq', 'is', 'lt', 'le') and is_const(x) and is_const(y):
        vx, vy = const_value(x), const_value(y)
        try:
            if op == 'eq':
                return const(vx == vy)
            if op == 'is':
                return const(x is y)
            if op == 'lt':
                return const(vx < vy)
            return const(vx <= vy)
        except TypeError:
            pass
    if op in ('eq', 'is') and x is y:
        return TRUE
    if op in ('eq', 'is') and y.n < x.n:
        x, y = y, x
    if op in ('is', 'eq') and (_definite(x) and y is NONE
            or _definite(y) and x is NONE):
        return FALSE
    if op == 'eq' and (x is NONE or y is NONE):
        op = 'is'
    if op == 'in' and y.op in ('list', 'tuple', 'setdisp') and y.a \
            and len(y.a) <= 6:
        return or_(*[cmp_('eq', x, e) for e in y.a])
    if op == 'in' and y.op in ('list', 'tuple', 'setdisp', 'dict') \
            and not y.a:
        return FALSE
    if op == 'in' and y.op == 'dict' and len(y.a) <= 4:
        return or_(*[cmp_('eq', x, k) for k, _ in y.a])
    if op == 'eq' and x.op == y.op == 'item' and x.a[0] is y.a[0] and \
            x.a[0].op == 'attr' and x.a[0].a[1] in ('outputs', 'inputs') and \
            all(z.a[1].op == 'num' and z.a[1].a[0] >= 0 for z in (x, y)):
        return FALSE            # The columns of a model are distinct.
    if op in ('lt', 'le') and (_isset(x) or _isset(y)):
        u, v = _unset(x), _unset(y)
        r = mk('subset', u, v)
        return r if op == 'le' else and_(r, not_(mk('subset', v, u)))
    return mk(op, x, y)


def _isset(t):
    return t.op in ('setdisp', 'inter', 'union', 'diff') or \
        t.op == 'comp' and t.a[0] == 'set' or t.op == 'call' and \
        t.a[0].op in ('glob', 'builtin') and t.a[0].a[0] in ('set',
            'frozenset')


def _unset(t):
    while t.op == 'call' and _isset(t) and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def _definite(t):
    """Terms that are certainly not None."""
    return t.op in ('num', 'list', 'dict', 'tuple', 'poly', 'comp', 'new',
        'closure', 'func', 'concat', 'setdisp', 'class') or (
        t.op == 'const' and t.a[1] is not None)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'anyq':
        return ite(not_(c), b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if b is FALSE and _isbool(a):
        return and_(c, a)
    if a is TRUE and _isbool(b):
        return or_(c, b)
    if c.op in ('lt', 'le') and c.a[0].n > c.a[1].n:
        # Canonical orientation for comparisons used as conditions.
        return mk('ite', not_(c), b, a)
    return mk('ite', c, a, b)


def _isbool(t):
    return t.op in ('not', 'and', 'or', 'lt', 'le', 'eq', 'is', 'in',
        'anyq', 'allq') or t is TRUE or t is FALSE

# ---------------------------------------------------------------------------
# Traversal.


def children(t):
    if t.op == 'poly':
        for m, _c in t.a[0]:
            for a, _e in m:
                yield a
        return
    st = [t.a]
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def subterms(t, _seen=None):
    seen = set() if _seen is None else _seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, x):
    return any(y is x for y in subterms(t))


def contains_any(t, pred):
    return any(pred(y) for y in subterms(t))


def subst(t, mp, memo=None):
    """Replace subterms by mapping, re-normalising."""
    if memo is None:
        memo = {}
    if t in mp:
        return mp[t]
    if t in memo:
        return memo[t]
    r = t
    op = t.op
    if op in ('const', 'num'):
        pass
    elif op == 'poly':
        r = mk('num', Fraction(0))
        for m, c in t.a[0]:
            p = mk('num', c)
            for a, e in m:
                b = subst(a, mp, memo)
                p = mul(p, power(b, mk('num', Fraction(e))))
            r = add(r, p)
    else:
        def go(x):
            if isinstance(x, T):
                return subst(x, mp, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        na = tuple(go(x) for x in t.a)
        if na != t.a:
            r = rebuild(op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'not':
        return not_(a[0])
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'ite':
        return ite(*a)
    if op in ('eq', 'is', 'lt', 'le', 'in'):
        return cmp_(op, *a)
    if op == 'pow':
        return power(*a)
    if op == 'anyq' and a[0] is FALSE or op == 'allq' and a[0] is TRUE:
        return a[0]
    if op in ('anyq', 'allq') and any(isinstance(g[0], T) and
            g[0].op in ('dict', 'list', 'tuple') and not g[0].a
            for g in a[1]):
        return FALSE if op == 'anyq' else TRUE
    return mk(op, *a)


def show(t, depth=12, limit=600):
    r = _show(t, depth)
    return r if len(r) <= limit else r[:limit] + '...'


def _show(t, depth=12):
    if depth < 0:
        return '...'
    s = lambda x: _show(x, depth - 1)
    op, a = t.op, t.a
    if op == 'num':
        return str(a[0])
    if op == 'const':
        return repr(a[1])
    if op == 'poly':
        out = []
        for m, c in a[0]:
            f = [s(x) + ('**%s' % e if e != 1 else '') for x, e in m]
            if c != 1 or not f:
                f = [str(c)] + f
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if op in ('param', 'glob', 'var'):
        return str(a[0])
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] +
            ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if op in ('func', 'class'):
        return str(a[0]).split('.')[-1]
    if op == 'elem':
        return 'each(%s%s)' % (s(a[0]), '' if a[1] == 0 else "'" * a[1])
    if op in ('lt', 'le', 'eq', 'is', 'in'):
        o = {'lt': '<', 'le': '<=', 'eq': '==', 'is': 'is', 'in': 'in'}[op]
        return '(%s %s %s)' % (s(a[0]), o, s(a[1]))
    if op == 'not':
        return 'not ' + s(a[0])

    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ', '.join(g(y) for y in x) + ')'
        return str(x)
    return '%s<%s>' % (op, ', '.join(g(x) for x in a))
