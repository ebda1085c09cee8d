"""C32: general samplers from a target density."""
from effects import *       # noqa
from rules.mixture import Kit, facts, metropolis
import core

REF = '''
from math import log
from cgpm.utils import general as gu
from cgpm.utils.sampling import _find_slice_interval

def rejection(target_pdf_fn, proposal_pdf_fn, proposal_draw_fn, N=1, rng=None):
    if rng is None:
        rng = gu.gen_rng()
    samples = []
    while len(samples) < N:
        x = proposal_draw_fn()
        q = proposal_pdf_fn(x)
        p = target_pdf_fn(x)
        assert p <= q
        if rng.rand() * q < p:
            samples.append(x)
    if N == 1:
        return samples[0]
    return samples

def slice(proposal_fun, log_pdf_fun, D, num_samples=1, burn=1, lag=1, w=1.0,
        rng=None):
    if rng is None:
        rng = gu.gen_rng()
    samples = []
    x = proposal_fun()
    n = 0
    while len(samples) < num_samples:
        n += 1
        u = log(rng.rand()) + log_pdf_fun(x)
        r = rng.rand()
        a, b = _find_slice_interval(log_pdf_fun, r, x, u, D, w=w)
        while True:
            y = rng.uniform(a, b)
            if log_pdf_fun(y) > u:
                x = y
                break
            if y > x:
                b = y
            else:
                a = y
        if n >= burn and n % lag == 0:
            samples.append(x)
    if num_samples == 1:
        return samples[0]
    return samples

def interval(f, r, x, u, D, w=1.):
    a = x - r * w
    b = x + (1 - r) * w
    if a < D[0]:
        a = D[0]
    else:
        while f(a) > u:
            a -= w
            if a < D[0]:
                a = D[0]
                break
    if b > D[1]:
        b = D[1]
    else:
        while f(b) > u:
            b += w
            if b > D[1]:
                b = D[1]
                break
    return a, b
'''


def eta(t):
    """A function that only hands its argument on is that function."""
    if t.op == 'lambda' and t.a[0] == 1 and t.a[1].op == 'call' and \
            len(t.a[1].a[1]) == 1 and not t.a[1].a[2] and \
            t.a[1].a[0].op == 'param' and not t.a[2].a and \
            show(t.a[1].a[1][0]).startswith('arg'):
        return t.a[1].a[0]
    return None


def run(ctx):
    metropolis(ctx)
    k = Kit(ctx, 'slice', REF, 'samplers')
    ctx.rule('slice', 'a height below the density at the current point is '
        'drawn, an interval around the point is extended while above it, and '
        'shrunk towards the point until a point above it is drawn')
    M = 'utils.sampling.'
    st = ('gen_rng', '_find_slice_interval')
    k.fun(M + 'slice_sample', 'slice', 'slice sampling', stop=st,
        rewrite=eta)
    k.fun(M + '_find_slice_interval', 'interval', 'slice interval')
    k = Kit(ctx, 'rejection', REF, 'samplers')
    ctx.rule('rejection', 'a proposal is kept when a uniform height below '
        'the proposal density is below the target density')
    k.fun(M + 'rejection_sample', 'rejection', 'rejection sampling', stop=st)
    ctx.require(len(ctx.obl), 2, 'samplers')
