"""C26: log-domain arithmetic, partition priors, and container helpers."""
from refspec import *        # noqa
from canon import Canon, call1, last, strip, decide
from front import AnalysisBroken
import algebra
import core

REF = '''
import math
import itertools
import numpy as np
from math import lgamma
from math import log
from collections import defaultdict

def logsumexp(array):
    if len(array) == 0:
        return float('-inf')
    m = max(array)
    if math.isinf(m) and min(array) != -m and \\
            all(not math.isnan(a) for a in array):
        return m
    return m + log(sum(math.exp(a - m) for a in array))

def logmeanexp(array):
    if len(array) == 0:
        return -float('inf')
    return logsumexp([a for a in array if not a == -float('inf')]) \\
        - log(len(array))

def logmeanexp_b(array):
    if len(array) == 0:
        return -float('inf')
    return logsumexp(array) - log(len(array))

def logmeanexp_weighted(log_A, log_W):
    return logsumexp([w + a for w, a in zip(log_W, log_A)]) \\
        - logsumexp(log_W)

def log_normalize(logp):
    return np.subtract(logp, logsumexp(logp))

def log_normalize_b(logp):
    return np.asarray(logp) - logsumexp(logp)

def normalize(p):
    return np.asarray(p, dtype=float) / sum(p)

def log_linspace(a, b, n):
    return np.exp(np.linspace(log(a), log(b), n))

def log_nCk(n, k):
    if n == 0 or k == 0 or n == k:
        return 0
    return lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1)

def log_nCk_b(n, k):
    return lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1)

def logp_crp(N, Nk, alpha):
    return len(Nk)*log(alpha) + sum(lgamma(c) for c in Nk) \\
        + lgamma(alpha) - lgamma(N + alpha)

def logp_crp_unorm(N, K, alpha):
    return K*log(alpha) + lgamma(alpha) - lgamma(N + alpha)

def logp_crp_gibbs(Nk, Z, i, alpha, m):
    K = sorted(Nk) if isinstance(Nk, dict) else range(len(Nk))
    aux = alpha / float(m)
    n = m - 1 if Nk[Z[i]] == 1 else m
    out = []
    for t in K:
        if t == Z[i]:
            w = aux if Nk[t] == 1 else Nk[t] - 1
        else:
            w = Nk[t]
        out.append(log(w))
    return out + [log(aux)]*n

def logp_crp_gibbs_b(Nk, Z, i, alpha, m):
    K = sorted(Nk) if isinstance(Nk, dict) else range(len(Nk))
    aux = alpha / float(m)
    n = m - 1 if Nk[Z[i]] == 1 else m
    out = []
    for t in K:
        if t == Z[i]:
            w = aux if Nk[Z[i]] == 1 else Nk[Z[i]] - 1
        else:
            w = Nk[t]
        out.append(log(w))
    return out + [log(aux)]*n

def logp_crp_fresh(N, Nk, alpha, m=1):
    return np.log(Nk + [alpha/m]*m) - log(N + alpha)

def log_pflip(logp, array=None, size=None, rng=None):
    return pflip(np.exp(log_normalize(logp)), array=array, size=size, rng=rng)

def pflip(p, array=None, size=None, rng=None):
    if array is None:
        array = range(len(p))
    if len(p) == 1:
        return array[0] if size is None else [array[0]]*size
    if rng is None:
        rng = gen_rng()
    return rng.choice(array, size=size, p=normalize(p))

def simulate_crp(N, alpha, rng=None):
    if rng is None:
        rng = gen_rng()
    alpha = float(alpha)
    partition = [0]*N
    Nk = [1]
    for i in range(1, N):
        t = pflip(Nk + [alpha], rng=rng)
        if t == len(Nk):
            Nk.append(1)
        else:
            Nk[t] += 1
        partition[i] = t
    return partition

def simulate_crp_b(N, alpha, rng=None):
    if rng is None:
        rng = gen_rng()
    alpha = float(alpha)
    partition = [0]
    Nk = [1]
    for i in range(1, N):
        t = pflip(Nk + [alpha], rng=rng)
        if t == len(Nk):
            Nk.append(1)
        else:
            Nk[t] += 1
        partition.append(t)
    return partition

def effective(N, Cd):
    return N - sum(len(block) for block in Cd) + len(Cd)

def counts(Z, Cd):
    out = defaultdict(int)
    seen = set()
    for block in Cd:
        seen.update(block)
        out[Z[block[0]]] += 1
    for c in Z:
        if c in seen:
            continue
        out[Z[c]] += 1
    return out

def logp_dependent(Z, alpha, Cd):
    if not vu.validate_crp_constrained_partition(Z, Cd, [], [], []):
        return -float('inf')
    counts = get_crp_constrained_partition_counts(Z, Cd)
    return logp_crp(get_crp_constrained_num_effective(len(Z), Cd),
        counts.values(), alpha)

def simulate_dependent(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for i, block in enumerate(Cd):
        t = tables[i]
        for c in block:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c, t in enumerate(partition):
        if t == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_b(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for i, block in enumerate(Cd):
        t = tables[i]
        for c in block:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c in range(N):
        if partition[c] == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_02(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for i, block in enumerate(Cd):
        t = tables[i]
        for c in block:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c in range(len(partition)):
        if partition[c] == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_10(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for i in range(len(Cd)):
        t = tables[i]
        for c in Cd[i]:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c, t in enumerate(partition):
        if t == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_11(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for i in range(len(Cd)):
        t = tables[i]
        for c in Cd[i]:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c in range(N):
        if partition[c] == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_12(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for i in range(len(Cd)):
        t = tables[i]
        for c in Cd[i]:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c in range(len(partition)):
        if partition[c] == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_20(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for t, block in zip(tables, Cd):
        for c in block:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c, t in enumerate(partition):
        if t == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_21(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for t, block in zip(tables, Cd):
        for c in block:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c in range(N):
        if partition[c] == -1:
            partition[c] = next(rest)
    return partition

def simulate_dependent_22(N, alpha, Cd, rng=None):
    if rng is None:
        rng = gen_rng()
    n = get_crp_constrained_num_effective(N, Cd)
    tables = simulate_crp(n, alpha, rng=rng)
    partition = [-1]*N
    for t, block in zip(tables, Cd):
        for c in block:
            partition[c] = t
    rest = iter(tables[len(Cd):])
    for c in range(len(partition)):
        if partition[c] == -1:
            partition[c] = next(rest)
    return partition

def build_rowid_blocks(Zvr):
    A = np.asarray(Zvr).T
    U = map(tuple, A)
    return {u: np.where(np.all(A == u, axis=1))[0] for u in U}

def merged(*dicts):
    out = {}
    for d in dicts:
        out.update(d)
    return out

def mergedl(dicts):
    return merged(*dicts)

def mergedl_b(dicts):
    out = {}
    for d in dicts:
        out.update(d)
    return out

def lchain(*args):
    return list(itertools.chain(*args))

def flatten_cgpms(cgpms, tpe):
    return list(itertools.chain.from_iterable(
        c.cgpms if isinstance(c, tpe) else [c] for c in cgpms))

def get_intersection(left, right):
    if right is None:
        return {} if isinstance(left, dict) else []
    if isinstance(right, dict):
        return {i: right[i] for i in right if i in left}
    return [i for i in right if i in left]
'''
G = 'cgpm.utils.general.'
NAMES = {'logsumexp', 'log_normalize', 'normalize', 'pflip', 'gen_rng',
    'get_prng', 'simulate_crp', 'logp_crp', 'merged',
    'get_crp_constrained_num_effective',
    'get_crp_constrained_partition_counts',
    'validate_crp_constrained_partition', 'validate_dependency_constraints',
    'validate_crp_constrained_input', 'check_compatible_customers'}
MATH = {'log', 'exp', 'lgamma', 'gammaln', 'isinf', 'isnan'}


def keep(f, recv, an):
    return f.name not in NAMES


def norm(t):
    # Helpers are named, wherever they are defined.
    if t.op in ('func', 'glob') and str(t.a[0]).split('.')[-1] in NAMES:
        n = str(t.a[0]).split('.')[-1]
        return mk('helper', 'gen_rng' if n == 'get_prng' else n)
    if t.op == 'call' and t.a[0].op == 'helper':
        r = helper_call(t)
        if r is not None:
            return r
    if t.op in ('setitem',):
        r = vector(t)
        if r is not None:
            return r
    if t.op == 'call' and t.a[0].op == 'glob':
        n = t.a[0].a[0]
        if n == 'numpy.subtract' and len(t.a[1]) == 2:
            return sub(*t.a[1])
        if n in ('numpy.asarray', 'numpy.array') and len(t.a[1]) == 1:
            return t.a[1][0]
        if n in ('xrange',):
            return mk('call', mk('glob', 'range'), t.a[1], t.a[2])
        if n in ('float',) and len(t.a[1]) == 1 and not is_const(t.a[1][0]):
            return t.a[1][0]
        if n == 'sum' and len(t.a[1]) == 1 and t.a[1][0].op == 'comp' and \
                t.a[1][0].a[0] in ('list', 'gen'):
            return mk('sum', *t.a[1][0].a[1:])
        if n in ('numpy.sum',):
            return mk('call', mk('glob', 'sum'), t.a[1], t.a[2])
    return None


def vector(t):
    """v = zeros(len(C)+1); v[k] = C[k]; v[len(C)] = x is C + [x]."""
    b, i, x = t.a
    c = call1(i, {'len'})
    if c is None or b.op != 'dictmerge' or len(b.a) != 2:
        return None
    z, d = b.a
    n = call1(z, {'zeros'})
    if n is None:
        n = z.a[1] if z.op == 'repeat' and z.a[0] is mk('list',
            const(0)) else None
    if n is not add(const(1), i):
        return None
    if d.op == 'comp' and d.a[0] == 'dict' and d.a[1] is mk('tuple',
            mk('idx', c, 0), mk('elem', c, 0)) and d.a[2] == ((c, ()),):
        return mk('concat', c, mk('list', x))
    return None


def helper_call(t):
    n = t.a[0].a[0]
    if n == 'pflip' and t.a[1]:
        # The draw only depends on the weights up to scale.
        p = t.a[1][0]
        if p.op == 'poly' and len(p.a[0]) == 1:
            v = [a for a, e in p.a[0][0][0] if e == 1 and a.op in ('concat',
                'append', 'comp', 'list')]
            if len(v) == 1:
                return mk('call', t.a[0], (v[0],) + tuple(t.a[1][1:]), t.a[2])
        if p.op == 'append':
            return mk('call', t.a[0], (mk('concat', p.a[0], mk('list',
                p.a[1])),) + tuple(t.a[1][1:]), t.a[2])
    return None


def comparer(ctx):
    ref = Ref(ctx, REF, 'logdom')
    fn = lambda n: ctx.ix.fn(G + n)

    def eq(rule, text, name, refs, **k):
        ctx.rule(rule, text)
        k.setdefault('rewrite', norm)
        k.setdefault('post', algebra.normalise)
        same(ctx, rule, fn(name), refs, ref, name.replace('_', ' '),
            inline=keep, **k)
    return eq


def dependent(ctx):
    """Partitions with blocks of dependent customers."""
    eq = comparer(ctx)
    eq('effective', 'a dependent block counts as one customer',
        'get_crp_constrained_num_effective', ['effective'], rejects=False)
    eq('effective-counts', 'a table counts each dependent block once and '
        'every other customer once', 'get_crp_constrained_partition_counts',
        ['counts'], bodies=True)
    eq('dependent-density', 'the density of a partition with dependent '
        'blocks is that of the partition of effective customers, and zero if '
        'it splits a block', 'logp_crp_constrained_dependent',
        ['logp_dependent'], rejects=False)
    eq('dependent-draw', 'blocks take the first seats, everyone else the '
        'rest', 'simulate_crp_constrained_dependent', ['simulate_dependent',
            'simulate_dependent_b'] + ['simulate_dependent_%d%d' % (a, b)
            for a in range(3) for b in range(3) if a or b == 2],
        rejects=False, bodies=True)


def run(ctx):
    eq = comparer(ctx)
    eq('log-sum-exp', 'the log of the sum of exponentials, shifted by the '
        'maximum', 'logsumexp', ['logsumexp'])
    eq('log-mean-exp', 'the log of the mean over all entries, zero '
        'probabilities counted', 'logmeanexp', ['logmeanexp',
        'logmeanexp_b'])
    eq('weighted-mean', 'the log of the weighted mean, weights normalised',
        'logmeanexp_weighted', ['logmeanexp_weighted'], rejects=False)
    eq('normalise', 'probabilities are divided by their total, in either '
        'domain', 'log_normalize', ['log_normalize', 'log_normalize_b'])
    eq('normalise', '', 'normalize', ['normalize'])
    eq('grid', 'logarithmically spaced points between the bounds',
        'log_linspace', ['log_linspace'])
    eq('choose', 'the log binomial coefficient', 'log_nCk', ['log_nCk',
        'log_nCk_b'])
    eq('crp-density', 'K log a + sum log Gamma(n_k) + log Gamma(a) - '
        'log Gamma(N+a)', 'logp_crp', ['logp_crp'])
    eq('crp-density', '', 'logp_crp_unorm', ['logp_crp_unorm'])
    eq('crp-gibbs', 'a customer sits elsewhere in proportion to the others '
        'there, and at m new tables with a/m each, its own empty table being '
        'one of them', 'logp_crp_gibbs', ['logp_crp_gibbs',
            'logp_crp_gibbs_b'])
    eq('crp-fresh', 'a new customer sits in proportion to the counts, or to '
        'a/m at each of m new tables', 'logp_crp_fresh', ['logp_crp_fresh'])
    eq('flip', 'a categorical draw with the normalised weights over the given '
        'values, from the given generator', 'log_pflip', ['log_pflip'],
        rejects=False)
    eq('flip', '', 'pflip', ['pflip'], rejects=False)
    eq('crp-draw', 'customers are seated in turn in proportion to the counts '
        'or the concentration', 'simulate_crp', ['simulate_crp',
        'simulate_crp_b'], rejects=False, bodies=True)
    dependent(ctx)
    eq('row-blocks', 'rows are grouped by their assignment in every view',
        'build_rowid_blocks', ['build_rowid_blocks'])
    eq('containers', 'merging, chaining, flattening and intersecting keep '
        'exactly the entries they name', 'merged', ['merged'])
    eq('containers', '', 'mergedl', ['mergedl', 'mergedl_b'])
    eq('containers', '', 'lchain', ['lchain'])
    eq('containers', '', 'flatten_cgpms', ['flatten_cgpms'])
    eq('containers', '', 'get_intersection', ['get_intersection'],
        rejects=False)
