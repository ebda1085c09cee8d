"""Queries over summaries shared by the rules."""
from terms import *        # noqa
from algebra import fname

SELF = mk('param', 'self')

QUERY = ('logpdf', 'simulate', 'logpdf_score', 'logpdf_likelihood',
    'logpdf_prior', 'to_metadata')
MUTATORS = {'incorporate', 'unincorporate', 'transition', 'set_hypers',
    'set_params', 'incorporate_dim', 'unincorporate_dim', 'force_cell',
    'update_cctype', 'compose_cgpm', 'decompose_cgpm'}


def root(t):
    """Variable a location expression is reached from."""
    while True:
        if t.op in ('attr', 'item', 'elem', 'popped', 'slice'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'attr' and \
                t.a[0].a[1].split('@')[0] in ('values', 'itervalues',
                    'items', 'iteritems', 'get', 'keys', 'setdefault'):
            t = t.a[0].a[0]
        else:
            return t


def mname(e):
    """Method/function name of a call event."""
    return (e.name or '').split('@')[0]


def calls(s, *names):
    return [e for e in s.events if e.kind == 'call' and mname(e) in names]


def through_rng(t):
    """Location passes through a random generator attribute."""
    while t.op in ('attr', 'item', 'elem'):
        if t.op == 'attr' and 'rng' in str(t.a[1]):
            return True
        t = t.a[0]
    return False


def free_in(t, el, _memo=None):
    """el occurs in t outside a comprehension binding it."""
    if t is el:
        return True
    if t.op in ('comp', 'sum', 'allq', 'anyq') and len(t.a) >= 2:
        gens = t.a[-1]
        for g in gens if isinstance(gens, tuple) else ():
            if isinstance(g, tuple) and g and g[0] is el.a[0]:
                return any(free_in(x[0], el) for x in gens)
    return any(free_in(x, el) for x in children(t))


def fan(e, recv=None):
    """How a call in a loop covers a container:
    ('all', C) every element, ('some', C, filters), ('one', receiver)."""
    r = e.recv if recv is None else recv
    if r is None:
        return ('none',)
    c = None
    if r.op == 'item' and r.a[1].op == 'elem' and r.a[1].a[0] is r.a[0]:
        c, el = r.a[0], r.a[1]
    elif r.op == 'elem':
        c, el = r.a[0], r
    if c is None:
        return ('one', r)
    flt = [g for g in e.guard if free_in(g, el)]
    if flt:
        return ('some', c, tuple(flt))
    # The loop must range over the whole container.
    for fr in e.ctx:
        if fr[0] == 'for' and (fr[1] is c or fr[2] is c):
            return ('all', c)
    return ('all', c)


def rowarg(e, params=('rowid',)):
    """First positional argument after the receiver, or rowid keyword."""
    a = list(e.args)
    if a and e.recv is not None and a[0] is e.recv and e.inlined:
        a = a[1:]
    if a:
        return a[0]
    for k, v in kwd(e).items():
        if k == 'rowid':
            return v
    return None


def kwd(e):
    return dict(e.kw or ())
