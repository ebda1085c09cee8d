"""C27: derived queries are computed from the model as defined."""
from effects import *       # noqa
from rules.mixture import Kit
import core

RELEVANCE = '''
import numpy as np
from cgpm.utils.general import logsumexp
from cgpm.mixtures.relevance import row_values, get_tables_same, \\
    get_view_logpdf_score, logpdf_assignments_marginalize_target, \\
    logpdf_assignments, get_cluster_logpdf_score

def relevance(view, rowid_target, rowid_query):
    if len(rowid_query) < 1:
        raise ValueError()
    if rowid_target in rowid_query:
        return 1.
    zt = view.Zr(rowid_target)
    xt = row_values(view, rowid_target)
    xq = [row_values(view, r) for r in rowid_query]
    zq = [view.Zr(r) for r in rowid_query]
    view.unincorporate(rowid_target)
    for r in rowid_query:
        view.unincorporate(r)
    tables = get_tables_same(sorted(view.crp.clusters[0].counts))
    base = [get_view_logpdf_score(view, t, t) for t in tables]
    every = [logpdf_assignments_marginalize_target(view, rowid_query,
        rowid_query, xt, xq, t) for t in tables]
    same = [logpdf_assignments(view, rowid_target, rowid_query, xt, xq, t, t)
        for t in tables]
    lp_every = logsumexp(np.subtract(every, base))
    lp_same = logsumexp(np.subtract(same, base))
    xt[view.outputs[0]] = zt
    view.incorporate(rowid_target, xt)
    for r, x, z in zip(rowid_query, xq, zq):
        x[view.outputs[0]] = z
        view.incorporate(r, x)
    return np.exp(lp_same - lp_every)

def marginal(view, rowid_target, rowid_query, xt, xq, k):
    for r, x in zip(rowid_query, xq):
        x[view.outputs[0]] = k
        view.incorporate(r, x)
        del x[view.outputs[0]]
    lp = get_view_logpdf_score(view, k, k)
    lp_target = view.logpdf(-1, xt)
    for r in rowid_query:
        view.unincorporate(r)
    return lp + lp_target

def joint(view, rowid_target, rowid_query, xt, xq, kt, kq):
    xt[view.outputs[0]] = kt
    view.incorporate(rowid_target, xt)
    del xt[view.outputs[0]]
    for r, x in zip(rowid_query, xq):
        x[view.outputs[0]] = kq
        view.incorporate(r, x)
        del x[view.outputs[0]]
    lp = get_view_logpdf_score(view, kt, kq)
    view.unincorporate(rowid_target)
    for r in rowid_query:
        view.unincorporate(r)
    return lp

def values(view, rowid):
    return {c: view.X[c][rowid] for c in view.outputs[1:]}

def same(tables):
    return tables + [max(tables) + 1 if tables else 0]

def score(view, kt, kq):
    lp = view.crp.logpdf_score() + get_cluster_logpdf_score(view, kq)
    if kt != kq:
        lp += get_cluster_logpdf_score(view, kt)
    return lp

def cluster(view, k):
    if k in view.crp.clusters[0].counts:
        return sum(d.clusters[k].logpdf_score()
            for d in view.dims.values())
    return 0

def view(self, rowid_target, rowid_query, col):
    from cgpm.mixtures.relevance import relevance_probability
    if col not in self.outputs:
        raise ValueError()
    return relevance_probability(self, rowid_target, rowid_query)

def state(self, rowid_target, rowid_query, col, hypotheticals=None):
    assert col in self.outputs
    v = self.view_for(col)
    rows = [{d: h.get(d, np.nan) for d in v.dims} for h in hypotheticals] \\
        if hypotheticals else []
    rows = filter(lambda r: not all(np.isnan(r.values())), rows)
    ids = range(self.n_rows(), self.n_rows() + len(rows))
    for i, x in zip(ids, rows):
        for d in v.dims:
            self.X[d].append(x[d])
        v.incorporate(i, x)
    every = rowid_query + ids
    p = all(v.Zr(rowid_target) == v.Zr(r) for r in every) if every else 0
    for i in reversed(ids):
        for d in v.dims:
            self.X[d].pop()
        v.unincorporate(i)
    return int(p)

def state_b(self, rowid_target, rowid_query, col, hypotheticals=None):
    assert col in self.outputs
    v = self.view_for(col)
    rows = filter(lambda r: not all(np.isnan(r.values())),
        [{d: h.get(d, np.nan) for d in v.dims} for h in hypotheticals]) \\
        if hypotheticals else []
    ids = range(self.n_rows(), self.n_rows() + len(rows))
    for i, x in zip(ids, rows):
        for d in v.dims:
            self.X[d].append(x[d])
        v.incorporate(i, x)
    every = rowid_query + ids
    p = all(v.Zr(rowid_target) == v.Zr(r) for r in every) if every else 0
    for i in reversed(ids):
        for d in v.dims:
            self.X[d].pop()
        v.unincorporate(i)
    return int(p)
'''

DEPENDENCE = '''
import itertools
import numpy as np
from cgpm.crosscat.state import State
from cgpm.network.helpers import retrieve_ancestors

def dependence(self, col0, col1):
    if self.has_output(col0) and self.has_output(col1):
        return float(self.Zv(col0) == self.Zv(col1))
    return State._dependence_probability_composite(self.build_cgpms(),
        {i: self.Zv(i) for i in self.outputs}, col0, col1)

def pairwise(self, colnos=None):
    if colnos is None:
        colnos = self.outputs
    D = np.eye(len(colnos))
    at = {c: k for k, c in enumerate(colnos)}
    for i, j in itertools.combinations(colnos, 2):
        D[at[i], at[j]] = D[at[j], at[i]] = self.dependence_probability(i, j)
    return D

def composite(cgpms, Zv, col0, col1):
    if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
        return 1.
    a = [c for c in Zv if Zv[c] == Zv[col0]] if col0 in Zv \\
        else [col0] + retrieve_ancestors(cgpms, col0)
    b = [c for c in Zv if Zv[c] == Zv[col1]] if col1 in Zv \\
        else [col1] + retrieve_ancestors(cgpms, col1)
    if set.intersection(set(a), set(b)):
        return 1.
    if any(set.intersection(set(c.outputs), a) and
            set.intersection(set(c.outputs), b) for c in cgpms):
        return 1.
    if set.intersection(set([Zv[i] for i in a if i in Zv]),
            set([Zv[i] for i in b if i in Zv])):
        return 1.
    return 0.

def similarity(self, row0, row1, cols=None):
    views = set(self.view_for(c) for c in
        (self.outputs if cols is None else cols))
    return np.mean([v.Zr(row0) == v.Zr(row1) for v in views])

def similarities(self, cols=None):
    if cols is None:
        cols = self.outputs
    rows = range(self.n_rows())
    S = np.eye(len(rows))
    for i, j in itertools.combinations(rows, 2):
        S[i, j] = S[j, i] = self.row_similarity(i, j, cols=cols)
    return S
'''

MI = '''
import numpy as np
from collections import defaultdict
from cgpm.utils.general import merged
from cgpm.network.helpers import retrieve_variable_to_cgpm, \\
    retrieve_weakly_connected_components

def information(self, col0, col1, constraints=None, T=None, N=None,
        progress=None):
    if constraints is None:
        constraints = {}
    if any(c in constraints for c in col0 + col1):
        raise ValueError()
    if any(c in col1 for c in col0) and set(col0) != set(col1):
        raise ValueError()
    return sum(self._compute_mutual_information(a, b, g, T, N, progress)
        for a, b, g in self._partition_mutual_information_query(
            col0, col1, constraints) if a and b)

def compute(self, col0, col1, constraints, T=None, N=None, progress=None):
    N = N or 100
    T = T or 100
    fixed = {e: x for e, x in constraints.items() if x is not None}
    free = [e for e, x in constraints.items() if x is None]
    one = self._compute_entropy if set(col0) == set(col1) else self._compute_mi
    if not free:
        return one(col0, col1, constraints, N)
    samples = self.simulate(None, free, fixed, N=T)
    return sum(one(col0, col1, merged(fixed, s), N)
        for s in samples) / float(T)

def mi(self, col0, col1, constraints, N):
    xs = self.simulate(None, col0 + col1, constraints, None, N)
    xy = self.logpdf_bulk(rowids=[-1]*N, targets_list=xs,
        constraints_list=[constraints]*N)
    x = self.logpdf_bulk(rowids=[-1]*N, targets_list=[
        {c: s[c] for c in col0} for s in xs],
        constraints_list=[constraints]*N)
    y = self.logpdf_bulk(rowids=[-1]*N, targets_list=[
        {c: s[c] for c in col1} for s in xs],
        constraints_list=[constraints]*N)
    return (np.sum(xy) - np.sum(x) - np.sum(y)) / N

def entropy(self, col0, col1, constraints, N):
    assert set(col0) == set(col1)
    xs = self.simulate(-1, col0, constraints, None, N)
    x = self.logpdf_bulk(rowids=[-1]*N, targets_list=[
        {c: s[c] for c in col0} for s in xs],
        constraints_list=[constraints]*N)
    return -np.sum(x) / N

def partition(self, col0, col1, constraints):
    cgpms = self.build_cgpms()
    owner = retrieve_variable_to_cgpm(cgpms)
    comp = retrieve_weakly_connected_components(cgpms)
    blocks = defaultdict(lambda: ([], [], {}))
    for c in col0:
        blocks[comp[owner[c]]][0].append(c)
    for c in col1:
        blocks[comp[owner[c]]][1].append(c)
    for c in constraints:
        blocks[comp[owner[c]]][2][c] = constraints[c]
    return blocks.values()
'''


def quiet(t):
    """Self checks of the debug mode are not part of the query."""
    if t.op == 'call' and last(t.a[0]) == 'check_env_debug':
        return FALSE
    return None


def run(ctx):
    ctx.rule('relevance', 'the posterior odds that a row shares the cluster '
        'of the query rows, over every table and a fresh one, the view being '
        'left as it was')
    k = Kit(ctx, 'relevance', RELEVANCE, 'relevance')
    M = 'mixtures.relevance.'
    st = ('row_values', 'get_tables_same', 'get_tables_different',
        'get_view_logpdf_score', 'logpdf_assignments_marginalize_target',
        'logpdf_assignments', 'get_cluster_logpdf_score', 'Zr',
        'relevance_probability', 'view_for', 'n_rows')
    pt = {'view': 'mixtures.view.View'}
    for n, r in (('relevance_probability', 'relevance'),
            ('logpdf_assignments_marginalize_target', 'marginal'),
            ('logpdf_assignments', 'joint'), ('row_values', 'values'),
            ('get_tables_same', 'same'), ('get_view_logpdf_score', 'score'),
            ('get_cluster_logpdf_score', 'cluster')):
        k.fun(M + n, r, 'relevance (%s)' % n, stop=st, rewrite=quiet)
    k.one('mixtures.view.View.relevance_probability', 'view',
        'relevance in a view', stop=st)
    S = 'crosscat.state.State.'
    k.one(S + 'relevance_probability', ['state', 'state_b'],
        'relevance in a state', stop=st)
    ctx.rule('dependence', 'columns are dependent when they share a group, '
        'an ancestor, or a component holding their ancestors')
    k = Kit(ctx, 'dependence', DEPENDENCE, 'dependence')
    st = ('has_output', 'Zv', 'build_cgpms', 'retrieve_ancestors',
        '_dependence_probability_composite', 'dependence_probability')
    k.one(S + 'dependence_probability', 'dependence', 'dependence of two '
        'columns', stop=st)
    k.one(S + 'dependence_probability_pairwise', 'pairwise',
        'dependence of all columns', stop=st)
    k.one(S + '_dependence_probability_composite', 'composite',
        'dependence in a composite', stop=st)
    ctx.rule('similarity', 'rows are similar in the proportion of the groups '
        'of columns where they share a cluster')
    k = Kit(ctx, 'similarity', DEPENDENCE, 'dependence')
    st = ('view_for', 'Zr', 'n_rows', 'row_similarity')
    k.one(S + 'row_similarity', 'similarity', 'similarity of rows', stop=st)
    k.one(S + 'row_similarity_pairwise', 'similarities', 'similarity of all '
        'rows', stop=st)
    ctx.rule('information', 'mutual information is estimated from samples of '
        'the joint, all three densities under the same constraints, averaged '
        'over the marginalized constraints, and summed over independent blocks')
    k = Kit(ctx, 'information', MI, 'information')
    st = ('_compute_mutual_information', '_compute_mi', '_compute_entropy',
        '_partition_mutual_information_query', 'build_cgpms', 'merged',
        'retrieve_variable_to_cgpm', 'retrieve_weakly_connected_components',
        'logpdf_bulk', '_progress')
    for n, r in (('mutual_information', 'information'),
            ('_compute_mutual_information', 'compute'),
            ('_compute_mi', 'mi'), ('_compute_entropy', 'entropy'),
            ('_partition_mutual_information_query', 'partition')):
        k.one(S + n, r, n.strip('_').replace('_', ' '), stop=st)
    ctx.require(len(ctx.obl), 19, 'queries')
