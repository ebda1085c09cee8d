"""C13-C16, C20, C23: the CrossCat mixture: densities and samples, scores,
bookkeeping of the two partitions, inference kernels, constraints."""
from effects import *       # noqa
from effects import UPDATES
import core

KEEP = {'_check_partitions', 'create_aux_model', 'log_pflip', 'pflip',
    'log_normalize', 'logsumexp', 'merged', 'preprocess', 'gen_rng',
    'cctype_class', 'build_network', '_validate_cgpm_query',
    'calc_predictive_logp', 'check_env_debug',
    'logp_crp_constrained_dependent', 'simulate_crp_constrained',
    'simulate_crp_constrained_dependent', 'log_linspace',
    'partition_query_evidence', 'partition_list', 'logmeanexp',
    'validate_crp_constrained_partition', 'gibbs_tables', 'gibbs_logps',
    'get_distargs'}
FACE = {'incorporate', 'unincorporate', 'incorporate_dim',
    'unincorporate_dim', 'logpdf', 'simulate', 'logpdf_score',
    'logpdf_likelihood', 'logpdf_prior', 'transition_hypers',
    'transition_params', 'transition_hyper_grids', 'set_hypers',
    'get_hypers', 'is_collapsed', 'is_conditional', 'force_cell',
    'update_cctype', 'to_metadata', 'construct_hyper_grids',
    '_populate_constraints', 'build_cgpms', 'get_suffstats'}


def keep(*names, **kw):
    stop = (KEEP | FACE | set(names)) - set(kw.get('open', ()))

    def pred(f, recv, an):
        return f.name not in stop and core.default_inline(f, recv, an)
    pred.deep = kw.get('deep', ())
    return pred


def rows(t):
    """Values of a row are numbers, and the inputs are all there once they
    are checked to be."""
    if t.op == 'eq' and const('missing') in t.a:
        for x in t.a:
            if x.op == 'ite' and x.a[2] is const('missing'):
                return not_(x.a[0])
    if t.op == 'ite' and t.a[2] is NONE and t.a[0].op == 'in' and \
            t.a[1] is mk('item', t.a[0].a[1], t.a[0].a[0]):
        k = t.a[0].a[0]
        if k.op == 'elem' and k.a[0].op == 'attr' and k.a[0].a[1] == 'inputs':
            return t.a[1]
    return facts(t)


def facts(t):
    """Values that are never None."""
    if t.op == 'glob' and t.a[0] == 'xrange':
        return mk('glob', 'range')
    if t.op == 'orelse' and len(t.a) == 2:
        return ite(t.a[0], t.a[0], t.a[1])
    if t.op == 'exc' and len(t.a) > 1:
        return mk('exc', t.a[0])
    if t.op == 'in' and t.a[1].op == 'comp' and t.a[1].a[0] in (
            'list', 'set', 'gen') and len(t.a[1].a[2]) == 1:
        (src, cs), = t.a[1].a[2]
        e = t.a[1].a[1]
        if e.op == 'elem' and e.a[0] is src:
            x = t.a[0]
            return and_(mk('in', x, src), *[subst(c, {e: x}) for c in cs])
    if t.op == 'in' and t.a[0].op == 'elem' and t.a[0].a[0] is t.a[1]:
        return TRUE
    if t.op == 'is' and NONE in t.a:
        x = t.a[1] if t.a[0] is NONE else t.a[0]
        if x.op == 'ite':
            return ite(x.a[0], cmp_('is', NONE, x.a[1]),
                cmp_('is', NONE, x.a[2]))
        if x.op == 'elem' and x.a[0].op == 'attr':
            return FALSE
        if x.op in ('idx', 'mut', 'new', 'list', 'tuple', 'dict',
                'comp', 'setdisp', 'num') or x in SOLID:
            return FALSE
        if x.op == 'attr' and x.a[1] in ('index', 'crp_id'):
            return FALSE
        if x.op == 'item' and x.a[0].op == 'attr' and x.a[0].a[1] in (
                'outputs', 'data'):
            return FALSE
        if x.op == 'item' and x.a[0].op == 'call' and \
                last(x.a[0].a[0]) in ('gibbs_tables', 'log_pflip'):
            return FALSE
    return None


SOLID = set()


def solid(*ks):
    SOLID.clear()
    SOLID.update(mk('param', '#%d' % k) for k in ks)


class Kit(object):
    """Comparison of methods of one class with reference functions."""

    def __init__(self, ctx, rule, text, key, ignore=('_check_partitions',
            '_progress')):
        self.ctx, self.rule = ctx, rule
        self.ref = Ref(ctx, text, key)
        self.ignore = ignore

    def one(self, qual, refs, what, stop=(), open=(), ordered=True,
            rule=None, given=(), args=None, result=True, rejects=True,
            construct=None, rewrite=None, fresh=False, deep=()):
        cn, mn = qual.rsplit('.', 1)
        cls = self.ctx.ix.cls('cgpm.' + cn) if cn[0] != '-' else None
        f = cls.lookup(mn)
        if f is None:
            self.ctx.violation(rule or self.rule, qual,
                'method %s not found' % mn, cls.name)
            return
        solid(*given)

        def rw(t):
            r = facts(t)
            if r is None and rewrite is not None:
                r = rewrite(t)
            return r
        E = Effects(self.ctx, keep(*stop, open=open, deep=deep),
            ignore=self.ignore, rewrite=rw, ordered=ordered)
        if isinstance(refs, str):
            refs = [refs]
        agree(self.ctx, rule or self.rule, f, refs, self.ref, what, E,
            cls=cls, args=args, result=result, rejects=rejects,
            construct=construct, fresh=fresh)

    def fun(self, qual, refs, what, stop=(), open=(), ordered=True,
            rule=None, given=(), ptypes=None, result=True, rejects=True,
            construct=None, rewrite=None):
        f = self.ctx.ix.fn('cgpm.' + qual)
        solid(*given)

        def rw(t):
            r = facts(t)
            if r is None and rewrite is not None:
                r = rewrite(t)
            return r
        E = Effects(self.ctx, keep(*stop, open=open), ignore=self.ignore,
            rewrite=rw, ordered=ordered)
        if isinstance(refs, str):
            refs = [refs]
        pt = {k: self.ctx.ix.cls('cgpm.' + v)
            for k, v in (ptypes or {}).items()}
        agree(self.ctx, rule or self.rule, f, refs, self.ref, what, E,
            result=result, rejects=rejects, construct=construct, ptypes=pt)


DENSITY = '''
import numpy as np
from math import isnan
from itertools import chain
from cgpm.primitives.crp import Crp
from cgpm.utils.general import log_normalize, log_pflip, logsumexp, merged
from cgpm.utils.validation import partition_query_evidence
from cgpm.network.importance import ImportanceNetwork

def view_logpdf(self, rowid, targets, constraints=None, inputs=None):
    given = self._populate_constraints(rowid, targets, constraints)
    row = rowid if self.hypothetical(rowid) else None
    net = self.build_network()
    z = self.outputs[0]
    if z in given:
        return net.logpdf(row, targets, given, inputs)
    if z in targets:
        here = {z: targets[z]}
        rest = merged({c: targets[c] for c in targets if c != z}, given)
        lp = net.logpdf(row, here, None, inputs)
        if rest:
            lp = lp + net.logpdf(row, rest, here, inputs)
        if given:
            lp = lp - self.logpdf(row, given)
        return lp
    K = self.crp.clusters[0].gibbs_tables(-1)
    cond = [merged(given, {z: k}) for k in K]
    prior = log_normalize([net.logpdf(row, c, None, inputs) for c in cond])
    return logsumexp(np.add(prior,
        [net.logpdf(row, targets, c, inputs) for c in cond]))

def view_logpdf_b(self, rowid, targets, constraints=None, inputs=None):
    given = self._populate_constraints(rowid, targets, constraints)
    row = rowid if self.hypothetical(rowid) else None
    net = self.build_network()
    z = self.outputs[0]
    if z in given:
        return net.logpdf(row, targets, given, inputs)
    if z in targets:
        here = {z: targets[z]}
        rest = merged({c: targets[c] for c in targets if c != z}, given)
        lp = net.logpdf(row, here, None, inputs)
        if rest:
            lp = lp + net.logpdf(row, rest, here, inputs)
        if given:
            lp = lp - self.logpdf(row, given, None, inputs)
        return lp
    K = self.crp.clusters[0].gibbs_tables(-1)
    cond = [merged(given, {z: k}) for k in K]
    prior = log_normalize([net.logpdf(row, c, None, inputs) for c in cond])
    return logsumexp(np.add(prior,
        [net.logpdf(row, targets, c, inputs) for c in cond]))

def view_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    given = self._populate_constraints(rowid, targets, constraints)
    row = rowid if self.hypothetical(rowid) else None
    net = self.build_network()
    z = self.outputs[0]
    if z in given:
        return net.simulate(row, targets, given, inputs, N)
    size = 1 if N is None else N
    rest = [q for q in targets if q != z] if z in targets else targets
    K = self.crp.clusters[0].gibbs_tables(-1)
    w = [net.logpdf(row, merged(given, {z: k})) for k in K]
    ks = log_pflip(w, array=K, size=size, rng=self.rng)
    counts = {k: n for k, n in enumerate(np.bincount(ks)) if n > 0}
    draws = [net.simulate(row, rest, merged(given, {z: k}), inputs,
        counts[k]) for k in counts]
    if z in targets:
        draws = [[merged(x, {z: k}) for x in d]
            for d, k in zip(draws, counts)]
    out = list(chain.from_iterable(draws))
    self.rng.shuffle(out)
    return out[0] if N is None else out

def view_populate(self, rowid, targets, constraints):
    if constraints is None:
        constraints = {}
    self._validate_cgpm_query(rowid, targets, constraints)
    if self.hypothetical(rowid):
        return constraints
    data = {c: self.X[c][rowid] for c in self.outputs[1:]
        if c not in targets and c not in constraints
        and not isnan(self.X[c][rowid])}
    data[self.outputs[0]] = self.Zr(rowid)
    return merged(constraints, data)

def state_populate(self, rowid, targets, constraints):
    constraints = constraints or dict()
    if self.hypothetical(rowid):
        return constraints
    data = {c: self.X[c][rowid] for c in self.outputs
        if c not in targets and c not in constraints
        and not isnan(self.X[c][rowid])}
    return merged(constraints, data)

def view_build_network(self):
    return ImportanceNetwork(cgpms=[self.crp.clusters[0]]
        + self.dims.values(), accuracy=1, rng=self.rng)

def state_build_network(self, accuracy=None):
    if accuracy is None:
        accuracy = 1
    return ImportanceNetwork([self.views[v] for v in self.views]
        + self.hooked_cgpms.values(), accuracy, rng=self.rng)

def dim_logpdf(self, rowid, targets, constraints=None, inputs=None):
    k, rest, valid = self.preprocess(targets, constraints, inputs)
    m = self.clusters.get(k, self.aux_model)
    return m.logpdf(rowid, targets, constraints, rest) if valid else 0

def dim_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    k, rest, valid = self.preprocess(targets, constraints, inputs)
    m = self.clusters.get(k, self.aux_model)
    return m.simulate(rowid, targets, constraints, rest, N)

def state_logpdf(self, rowid, targets, constraints=None, inputs=None,
        accuracy=None):
    self._validate_cgpm_query(rowid, targets, constraints)
    if not self._composite:
        return sampling.state_logpdf(self, rowid, targets, constraints)
    given = self._populate_constraints(rowid, targets, constraints)
    return self.build_network(accuracy=accuracy).logpdf(
        rowid, targets, given, inputs)

def state_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None, accuracy=None):
    self._validate_cgpm_query(rowid, targets, constraints)
    if not self._composite:
        return sampling.state_simulate(self, rowid, targets, constraints, N)
    given = self._populate_constraints(rowid, targets, constraints)
    return self.build_network(accuracy=accuracy).simulate(
        rowid, targets, given, inputs, N)

from cgpm.crosscat import sampling

def s_state_logpdf(state, rowid, targets, constraints=None):
    t, c = partition_query_evidence(state.Zv(), targets, constraints)
    return sum(sampling.view_logpdf(state.views[v], rowid, t[v],
        c.get(v, {})) for v in t)

def s_state_simulate(state, rowid, targets, constraints=None, N=None):
    t, c = partition_query_evidence(state.Zv(), targets, constraints)
    size = N if N is not None else 1
    draws = [sampling.view_simulate(state.views[v], rowid, t[v],
        c.get(v, {}), size) for v in t]
    out = [merged(*l) for l in zip(*draws)]
    return out if N is not None else out[0]

def s_view_logpdf(view, rowid, targets, constraints):
    if not view.hypothetical(rowid):
        return sampling._logpdf_row(view, targets, view.Zr(rowid))
    K = view.crp.clusters[0].gibbs_tables(-1)
    crp = [Crp.calc_predictive_logp(k, len(view.Zr()), view.Nk(),
        view.alpha()) for k in K]
    ev = [sampling._logpdf_row(view, constraints, k) for k in K]
    if all(np.isinf(ev)):
        raise ValueError()
    return logsumexp(np.add(log_normalize(np.add(crp, ev)),
        [sampling._logpdf_row(view, targets, k) for k in K]))

def s_view_simulate(view, rowid, targets, constraints, N):
    if not view.hypothetical(rowid):
        return sampling._simulate_row(view, targets, view.Zr(rowid), N)
    K = view.crp.clusters[0].gibbs_tables(-1)
    crp = [Crp.calc_predictive_logp(k, len(view.Zr()), view.Nk(),
        view.alpha()) for k in K]
    ev = [sampling._logpdf_row(view, constraints, k) for k in K]
    if all(np.isinf(ev)):
        raise ValueError()
    ks = log_pflip(np.add(crp, ev), array=K, size=N, rng=view.rng)
    counts = {k: n for k, n in enumerate(np.bincount(ks)) if n > 0}
    out = list(chain.from_iterable(
        [sampling._simulate_row(view, targets, k, counts[k])
        for k in counts]))
    view.rng.shuffle(out)
    return out

def s_view_simulate_grow(view, rowid, targets, constraints, N):
    if not view.hypothetical(rowid):
        return sampling._simulate_row(view, targets, view.Zr(rowid), N)
    K = view.crp.clusters[0].gibbs_tables(-1)
    crp = [Crp.calc_predictive_logp(k, len(view.Zr()), view.Nk(),
        view.alpha()) for k in K]
    ev = [sampling._logpdf_row(view, constraints, k) for k in K]
    if all(np.isinf(ev)):
        raise ValueError()
    ks = log_pflip(np.add(crp, ev), array=K, size=N, rng=view.rng)
    out = []
    for k, n in enumerate(np.bincount(ks)):
        if n > 0:
            out.extend(sampling._simulate_row(view, targets, k, n))
    view.rng.shuffle(out)
    return out

def s_logpdf_row(view, targets, cluster):
    return sum(view.dims[c].logpdf(None, {c: x}, None,
        {view.outputs[0]: cluster}) for c, x in targets.iteritems())

def s_simulate_row(view, targets, cluster, N):
    draws = [view.dims[c].simulate(None, [c], None,
        {view.outputs[0]: cluster}, N) for c in targets]
    return [merged(*l) for l in zip(*draws)]
'''


def density(ctx):
    k = Kit(ctx, 'mixture-density', DENSITY, 'density')
    ctx.rule('mixture-density', 'densities and samples of the mixture are the '
        'cluster-weighted combinations given by the reference definitions')
    V, S, D = 'mixtures.view.View.', 'crosscat.state.State.', \
        'mixtures.dim.Dim.'
    k.one(V + 'logpdf', ['view_logpdf', 'view_logpdf_b'],
        'density of a view')
    k.one(V + 'simulate', 'view_simulate', 'samples of a view')
    k.one(V + '_populate_constraints', 'view_populate',
        'evidence from an observed row', open=('_populate_constraints',))
    k.one(S + '_populate_constraints', 'state_populate',
        'evidence from an observed row', open=('_populate_constraints',))
    k.one(V + 'build_network', 'view_build_network', 'network of a view',
        open=('build_network',))
    k.one(S + 'build_network', 'state_build_network', 'network of the state',
        open=('build_network', 'build_cgpms'))
    k.one(D + 'logpdf', 'dim_logpdf', 'density of a column in a cluster')
    k.one(D + 'simulate', 'dim_simulate', 'samples of a column in a cluster')
    k.one(S + 'logpdf', 'state_logpdf', 'density of the state',
        stop=('state_logpdf',))
    k.one(S + 'simulate', 'state_simulate', 'samples of the state',
        stop=('state_simulate',))
    st = ('view_logpdf', 'view_simulate', '_logpdf_row', '_simulate_row')
    pt = {'#0': 'crosscat.state.State'}
    pv = {'#0': 'mixtures.view.View'}
    M = 'crosscat.sampling.'
    k.fun(M + 'state_logpdf', 's_state_logpdf', 'density across views',
        stop=st, ptypes=pt)
    k.fun(M + 'state_simulate', 's_state_simulate', 'samples across views',
        stop=st, ptypes=pt)
    k.fun(M + 'view_logpdf', 's_view_logpdf', 'density within a view',
        stop=st, ptypes=pv)
    k.fun(M + 'view_simulate', ['s_view_simulate',
        's_view_simulate_grow'], 'samples within a view',
        stop=st, ptypes=pv)
    k.fun(M + '_logpdf_row', 's_logpdf_row', 'density in a cluster',
        ptypes=pv)
    k.fun(M + '_simulate_row', 's_simulate_row', 'samples in a cluster',
        ptypes=pv)
    ctx.require(len(ctx.obl), 16, 'densities and samplers')

SCORES = '''
from cgpm.utils import general as gu

def dim_score(self):
    return sum(self.clusters[k].logpdf_score() for k in self.clusters)

def view_likelihood(self):
    return sum(d.logpdf_score() for d in self.dims.itervalues())

def view_prior(self):
    return self.crp.logpdf_score()

def view_score(self):
    return self.crp.logpdf_score() \\
        + sum(d.logpdf_score() for d in self.dims.itervalues())

def state_crp(self):
    if self.Ci:
        raise ValueError()
    if self.Cd:
        return gu.logp_crp_constrained_dependent(self.Zv(), self.alpha(),
            self.Cd)
    return self.crp.logpdf_score()

def state_likelihood(self):
    return sum(v.logpdf_likelihood() for v in self.views.itervalues())

def state_score(self):
    return self.logpdf_score_crp() \\
        + sum(v.logpdf_score() for v in self.views.itervalues())
'''


def scores(ctx):
    k = Kit(ctx, 'score-composition', SCORES, 'scores')
    ctx.rule('score-composition', 'the score of a composite is the sum of the '
        'partition prior and the scores of exactly its parts')
    V, S = 'mixtures.view.View.', 'crosscat.state.State.'
    op = ('logpdf_prior', 'logpdf_likelihood')
    k.one('mixtures.dim.Dim.logpdf_score', 'dim_score', 'score of a column',
        open=('logpdf_score',))
    k.one(V + 'logpdf_likelihood', 'view_likelihood', 'likelihood of a view',
        open=('logpdf_likelihood',))
    k.one(V + 'logpdf_prior', 'view_prior', 'prior of a view',
        open=('logpdf_prior',))
    k.one(V + 'logpdf_score', 'view_score', 'score of a view', open=op)
    st = ('logpdf_score_crp',)
    k.one(S + 'logpdf_score_crp', 'state_crp', 'prior of the state')
    k.one(S + 'logpdf_likelihood', 'state_likelihood',
        'likelihood of the state')
    k.one(S + 'logpdf_score', 'state_score', 'score of the state', stop=st)
    ctx.require(len(ctx.obl), 7, 'scores')

BOOKS = '''
import math
import numpy as np
from math import isnan
from cgpm.utils import config as cu
from cgpm.utils import general as gu
from cgpm.utils import validation as vu
from cgpm.mixtures.dim import Dim
from cgpm.mixtures.view import View
from cgpm.utils.general import merged
from cgpm.utils.config import cctype_class

def dim_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.Zr or rowid in self.Zi:
        raise ValueError()
    k, rest, valid = self.preprocess(observation, None, inputs)
    if k in self.clusters:
        if valid:
            self.clusters[k].incorporate(rowid, observation, rest)
    else:
        model = self.aux_model
        if valid:
            model.incorporate(rowid, observation, rest)
        self.clusters[k] = model
        self.aux_model = self.create_aux_model()
    if valid:
        self.Zr[rowid] = k
    else:
        self.Zi[rowid] = k

def dim_incorporate_b(self, rowid, observation, inputs=None):
    if rowid in self.Zr or rowid in self.Zi:
        raise ValueError()
    k, rest, valid = self.preprocess(observation, None, inputs)
    if k in self.clusters:
        if valid:
            self.clusters[k].incorporate(rowid, observation, rest)
    else:
        if valid:
            self.aux_model.incorporate(rowid, observation, rest)
        self.clusters[k] = self.aux_model
        self.aux_model = self.create_aux_model()
    if valid:
        self.Zr[rowid] = k
    else:
        self.Zi[rowid] = k

def dim_unincorporate(self, rowid):
    if rowid not in self.Zi and rowid not in self.Zr:
        raise ValueError()
    if rowid in self.Zi:
        del self.Zi[rowid]
    else:
        self.clusters[self.Zr[rowid]].unincorporate(rowid)
        del self.Zr[rowid]

def dim_aux(self):
    return self.model(outputs=[self.index], inputs=self.inputs[1:],
        hypers=self.hypers, distargs=self.distargs, rng=self.rng)

def dim_set_hypers(self, hypers):
    self.hypers = dict(hypers)
    for k in self.clusters:
        self.clusters[k].set_hypers(hypers)
    self.aux_model = self.create_aux_model()

def dim_preprocess(self, targets, constraints, inputs):
    rest = inputs.copy()
    try:
        k = rest.pop(self.inputs[0])
    except KeyError:
        raise ValueError()
    assert not constraints or not any(np.isnan(constraints.values()))
    here = not isinstance(targets, dict) or not math.isnan(
        targets[self.index])
    known = not inputs or not any(np.isnan(rest.values()))
    return k, rest, here and known

def dim_preprocess_plain(self, targets, constraints, inputs):
    if self.inputs[0] not in inputs:
        raise ValueError()
    rest = dict(inputs)
    k = rest.pop(self.inputs[0])
    assert not constraints or not any(np.isnan(constraints.values()))
    here = not isinstance(targets, dict) or not math.isnan(
        targets[self.index])
    known = not any(np.isnan(rest.values()))
    return k, rest, here and known

def view_incorporate_dim(self, dim, reassign=True):
    dim.inputs[0] = self.outputs[0]
    if reassign:
        self._bulk_incorporate(dim)
    self.dims[dim.index] = dim
    self.outputs = self.outputs[:1] + self.dims.keys()
    return dim.logpdf_score()

def view_unincorporate_dim(self, dim):
    del self.dims[dim.index]
    self.outputs = self.outputs[:1] + self.dims.keys()
    return dim.logpdf_score()

def view_bulk(self, dim):
    dim.clusters = {}
    dim.Zr = {}
    dim.Zi = {}
    dim.aux_model = dim.create_aux_model()
    for row in self.Zr():
        dim.incorporate(row, {dim.index: self.X[dim.index][row]},
            self._get_input_values(row, dim, self.Zr()[row]))
    assert merged(dim.Zr, dim.Zi) == self.Zr()
    dim.transition_params()

def view_incorporate(self, rowid, observation, inputs=None):
    z = self.outputs[0]
    k = observation[z] if z in observation else 0
    self.crp.incorporate(rowid, {z: k}, {-1: 0})
    for c in self.dims:
        d = self.dims[c]
        d.incorporate(rowid, {c: observation[c]},
            self._get_input_values(rowid, d, k))
    if z not in observation:
        self.transition_rows(rows=[rowid])

def view_unincorporate(self, rowid):
    for d in self.dims.values():
        d.unincorporate(rowid)
    k = self.Zr(rowid)
    self.crp.unincorporate(rowid)
    if k not in self.Nk():
        for d in self.dims.values():
            del d.clusters[k]

def view_force(self, rowid, observation):
    k = self.Zr(rowid)
    for c in observation:
        d = self.dims[c]
        d.unincorporate(rowid)
        d.incorporate(rowid, {c: observation[c]},
            self._get_input_values(rowid, d, k))

def view_inputs(self, rowid, dim, k):
    return merged({i: self.X[i][rowid] for i in dim.inputs[1:]},
        {self.outputs[0]: k})

def view_migrate(self, rowid, k):
    self.unincorporate(rowid)
    self.incorporate(rowid, merged({c: self.X[c][rowid] for c in self.dims},
        {self.outputs[0]: k}))

def view_alpha(self):
    return self.crp.hypers['alpha']

def view_Nk(self, k=None):
    c = self.crp.clusters[0].counts
    return c if k is None else c[k]

def view_Zr(self, rowid=None):
    d = self.crp.clusters[0].data
    return d if rowid is None else d[rowid]

def view_n_rows(self):
    return len(self.crp.clusters[0].data)

def view_hypothetical(self, rowid):
    return rowid < 0 or rowid >= len(self.crp.clusters[0].data)

def view_update_cctype(self, col, cctype, distargs=None):
    args = dict({} if distargs is None else distargs)
    extra = []
    if cctype_class(cctype).is_conditional():
        extra = args.get('inputs', [c for c in sorted(self.dims)
            if c != col and not self.dims[c].is_conditional()])
        if len(self.dims) == 0 or len(extra) == 0:
            raise ValueError()
        args['inputs'] = {'indexes': extra,
            'stattypes': [self.dims[i].cctype for i in extra],
            'statargs': [self.dims[i].get_distargs() for i in extra]}
    new = Dim(outputs=[col], inputs=[self.outputs[0]] + extra,
        cctype=cctype, distargs=args, rng=self.rng)
    self.unincorporate_dim(self.dims[col])
    self.incorporate_dim(new)

def state_alpha(self):
    return self.crp.hypers['alpha']

def state_Nv(self, v=None):
    c = self.crp.clusters[0].counts
    return c.copy() if v is None else c[v]

def state_Zv(self, c=None):
    d = self.crp.clusters[0].data
    return d.copy() if c is None else d[c]

def state_n_rows(self):
    return len(self.X[self.outputs[0]])

def state_n_cols(self):
    return len(self.outputs)

def state_hypothetical(self, rowid):
    return rowid < 0 or rowid >= len(self.X[self.outputs[0]])

def state_view_for(self, c):
    return self.views[self.crp.clusters[0].data[c]]

def state_dim_for(self, c):
    return self.views[self.crp.clusters[0].data[c]].dims[c]

def state_dims(self):
    return [self.views[self.crp.clusters[0].data[c]].dims[c]
        for c in self.outputs]

def state_dims_b(self):
    return [self.dim_for(c) for c in self.outputs]

def state_dims_c(self):
    return [self.view_for(c).dims[c] for c in self.outputs]

def state_cctypes(self):
    return [d.name() for d in self.dims()]

def state_distargs(self):
    return [d.get_distargs() for d in self.dims()]

def state_has_output(self, col):
    return col in self.outputs_set

def state_set_outputs(self, outputs):
    self.outputs = list(outputs)
    self.outputs_set = set(outputs)

def state_set_outputs_b(self, outputs):
    self.outputs = list(outputs)
    self.outputs_set = set(self.outputs)

def state_composite(self):
    self._composite = len(self.hooked_cgpms) > 0 or any(
        d.is_conditional() for d in self.dims())

def state_delete_view(self, v):
    assert v not in self.crp.clusters[0].counts
    del self.views[v]

def state_append_view(self, view, identity):
    assert len(view.dims) == 0
    self.views[identity] = view

def state_migrate(self, v_a, v_b, dim, reassign=None):
    r = dim.is_collapsed() if reassign is None else reassign
    last = self.Nv(v_a) == 1
    if dim.index in self.views[v_a].dims:
        self.views[v_a].unincorporate_dim(dim)
    self.views[v_b].incorporate_dim(dim, reassign=r)
    self.crp.unincorporate(dim.index)
    self.crp.incorporate(dim.index, {self.crp_id: v_b}, {-1: 0})
    if last:
        self._delete_view(v_a)

def state_incorporate_dim(self, T, outputs, inputs=None, cctype=None,
        distargs=None, v=None):
    if len(T) != self.n_rows() or len(outputs) != 1 or \\
            outputs[0] in self.outputs or inputs:
        raise ValueError()
    col = outputs[0]
    self.X[col] = list(T)
    self.set_outputs(self.outputs + [col])
    at = 0 if v is None else v
    if at in self.views:
        view = self.views[at]
    else:
        view = View(self.X, outputs=[self.crp_id_view + at], rng=self.rng)
        self._append_view(view, at)
    d = Dim(outputs=outputs, inputs=[view.outputs[0]], cctype=cctype,
        distargs=distargs, rng=self.rng)
    d.transition_hyper_grids(self.X[col])
    view.incorporate_dim(d)
    self.crp.incorporate(col, {self.crp_id: at}, {-1: 0})
    self.transition_dims(cols=[col] if v is None else [])
    self.transition_dim_hypers(cols=[col])
    self._update_is_composite()

def state_unincorporate_dim(self, col):
    if self.n_cols() == 1 or col not in self.outputs:
        raise ValueError()
    v = self.Zv(col)
    last = self.Nv(v) == 1
    self.views[v].unincorporate_dim(self.dim_for(col))
    self.crp.unincorporate(col)
    if last:
        self._delete_view(v)
    del self.X[col]
    self.set_outputs([c for c in self.outputs if c != col])
    rest = [[c for c in block if c != col] for block in self.Cd]
    self.Cd = [block for block in rest if len(block) > 1]
    self.Ci = [pair for pair in self.Ci if col not in pair]
    self._update_is_composite()

def state_incorporate(self, rowid, observation, inputs=None):
    tokens = set([self.views[v].outputs[0] for v in self.views])
    known = [q for q in observation if q in tokens]
    rest = [q for q in observation if q not in known]
    if rowid != self.n_rows() or inputs or \\
            not all(q in self.outputs for q in rest) or \\
            any(isnan(x) for x in observation.values()):
        raise ValueError()
    for c in self.outputs:
        self.X[c].append(observation.get(c, float('nan')))
    row = self.n_rows() - 1 if self.hypothetical(rowid) else rowid
    for v in self.views:
        w = self.views[v]
        z = w.outputs[0]
        w.incorporate(row, gu.merged(
            {z: observation[z]} if z in observation else {},
            {d: self.X[d][row] for d in w.dims}))

def state_unincorporate(self, rowid):
    if rowid != self.n_rows() - 1 or self.n_rows() == 1:
        raise ValueError()
    for c in self.outputs:
        self.X[c].pop()
    for v in self.views:
        self.views[v].unincorporate(rowid)

def state_force(self, rowid, observation):
    if rowid < 0 or rowid >= self.n_rows() or \\
            not all(np.isnan(self.X[c][rowid]) for c in observation):
        raise ValueError()
    for c in observation:
        self.X[c][rowid] = observation[c]
    per = vu.partition_list({c: self.Zv(c) for c in observation}, observation)
    for v in per:
        self.views[v].force_cell(rowid, {c: observation[c] for c in per[v]})

def state_update_cctype(self, col, cctype, distargs=None):
    assert col in self.outputs
    self.view_for(col).update_cctype(col, cctype, distargs=distargs)
    self.transition_dim_grids(cols=[col])
    self.transition_dim_params(cols=[col])
    self.transition_dim_hypers(cols=[col])
    self._update_is_composite()

def state_compose(self, cgpm):
    token = next(self.token_generator)
    self.hooked_cgpms[token] = cgpm
    try:
        self.build_network()
    except ValueError as e:
        del self.hooked_cgpms[token]
        raise e
    self._update_is_composite()
    return token

def state_decompose(self, token):
    del self.hooked_cgpms[token]
    self._update_is_composite()
    self.build_network()

def state_incorporate_bulk(self, rowids, observations, inputs=None):
    for r, o in zip(rowids, observations):
        self.incorporate(r, o, inputs)

def state_force_bulk(self, rowids, queries):
    for r, q in zip(rowids, queries):
        self.force_cell(r, q)
'''


def books(ctx):
    k = Kit(ctx, 'bookkeeping', BOOKS, 'books')
    ctx.rule('bookkeeping', 'every operation on rows, columns and cells '
        'updates the data, both partitions and the clusters as the reference '
        'definitions do')
    V, S, D = 'mixtures.view.View.', 'crosscat.state.State.', \
        'mixtures.dim.Dim.'
    k.one(D + 'incorporate', ['dim_incorporate', 'dim_incorporate_b'], 'adding a row to a column',
        open=('incorporate',))
    k.one(D + 'unincorporate', 'dim_unincorporate',
        'removing a row from a column', open=())
    k.one(D + 'create_aux_model', 'dim_aux', 'model of a fresh cluster',
        open=('create_aux_model',))
    k.one(D + 'set_hypers', 'dim_set_hypers', 'setting hyperparameters')
    k.one(D + 'preprocess', ('dim_preprocess',
        'dim_preprocess_plain'), 'reading a cell')
    k.one(V + 'incorporate_dim', 'view_incorporate_dim', 'adding a column',
        stop=('_bulk_incorporate',))
    k.one(V + 'unincorporate_dim', 'view_unincorporate_dim',
        'removing a column')
    k.one(V + '_bulk_incorporate', 'view_bulk', 'filling a column',
        stop=('_get_input_values',))
    st = ('_get_input_values', 'transition_rows')
    k.one(V + 'incorporate', 'view_incorporate', 'adding a row', stop=st)
    k.one(V + 'unincorporate', 'view_unincorporate', 'removing a row')
    k.one(V + 'force_cell', 'view_force', 'forcing cells', stop=st)
    k.one(V + '_get_input_values', 'view_inputs', 'inputs of a cell')
    k.one(V + '_migrate_row', 'view_migrate', 'moving a row')
    k.one(V + 'update_cctype', 'view_update_cctype',
        'changing the type of a column')
    for n in ('alpha', 'Nk', 'Zr', 'n_rows', 'hypothetical'):
        k.one(V + n, 'view_' + n, 'accessor %s' % n)
    for n in ('alpha', 'Nv', 'Zv', 'n_rows', 'n_cols', 'hypothetical',
            'view_for', 'dim_for', 'cctypes', 'distargs', 'has_output'):
        k.one(S + n, 'state_' + n, 'accessor %s' % n,
            given=(0,) if n in ('view_for', 'dim_for') else ())
    k.one(S + 'dims', 'state_dims', 'accessor dims')
    k.one(S + 'set_outputs', ['state_set_outputs', 'state_set_outputs_b'],
        'setting outputs')
    k.one(S + '_update_is_composite', 'state_composite',
        'whether plain mixture queries suffice')
    k.one(S + '_delete_view', 'state_delete_view', 'dropping a view')
    k.one(S + '_append_view', 'state_append_view', 'adding a view')
    st = ('_delete_view', '_append_view', '_update_is_composite',
        'set_outputs', 'transition_dims', 'transition_dim_hypers',
        'transition_dim_grids', 'transition_dim_params', 'partition_list')
    k.one(S + '_migrate_dim', 'state_migrate', 'moving a column', stop=st)
    k.one(S + 'incorporate_dim', 'state_incorporate_dim', 'adding a column',
        stop=st)
    k.one(S + 'unincorporate_dim', 'state_unincorporate_dim',
        'removing a column', stop=st)
    k.one(S + 'incorporate', 'state_incorporate', 'adding a row', stop=st)
    k.one(S + 'unincorporate', 'state_unincorporate', 'removing a row',
        stop=st)
    k.one(S + 'force_cell', 'state_force', 'forcing cells', stop=st)
    k.one(S + 'update_cctype', 'state_update_cctype',
        'changing the type of a column', stop=st)
    k.one(S + 'compose_cgpm', 'state_compose', 'attaching a model', stop=st)
    k.one(S + 'decompose_cgpm', 'state_decompose', 'detaching a model',
        stop=st)
    k.one(S + 'incorporate_bulk', 'state_incorporate_bulk', 'adding rows')
    k.one(S + 'force_cell_bulk', 'state_force_bulk', 'forcing many cells')
    ctx.require(len(ctx.obl), 46, 'operations and accessors')

BUILD = '''
import itertools
import numpy as np
from collections import defaultdict, OrderedDict
from cgpm.utils import config as cu
from cgpm.utils import general as gu
from cgpm.utils import validation as vu
from cgpm.mixtures.dim import Dim
from cgpm.mixtures.view import View
from cgpm.utils.general import merged

def dim_init(self, outputs, inputs, cctype=None, hypers=None, params=None,
        distargs=None, rng=None):
    self.rng = gu.gen_rng() if rng is None else rng
    if len(outputs) != 1 or len(inputs) < 1:
        raise ValueError()
    self.outputs = list(outputs)
    self.inputs = list(inputs)
    self.index = self.outputs[0]
    self.model = cu.cctype_class(cctype)
    self.cctype = self.model.name()
    self.distargs = {} if distargs is None else dict(distargs)
    self.hyper_grids = {}
    self.hypers = {} if hypers is None else dict(hypers)
    self.clusters = {}
    self.Zr = {}
    self.Zi = {}
    self.aux_model = self.create_aux_model()

def view_init(self, X, outputs=None, inputs=None, alpha=None, cctypes=None,
        distargs=None, hypers=None, Zr=None, rng=None):
    self.rng = gu.gen_rng() if rng is None else rng
    if inputs or len(outputs) < 1:
        raise ValueError()
    self.inputs = []
    self.X = X
    if len(outputs) > 1:
        if not distargs:
            distargs = [None] * len(cctypes)
        if not hypers:
            hypers = [None] * len(cctypes)
        assert len(outputs[1:]) == len(cctypes)
        assert len(distargs) == len(cctypes)
        assert len(hypers) == len(cctypes)
    self.outputs = list(outputs)
    self.crp = Dim(outputs=[self.outputs[0]], inputs=[-1], cctype='crp',
        hypers={'alpha': alpha} if alpha is not None else None, rng=self.rng)
    n = len(self.X[self.X.keys()[0]])
    self.crp.transition_hyper_grids([1] * n)
    if Zr is not None:
        for i, z in enumerate(Zr):
            self.crp.incorporate(i, {self.outputs[0]: z}, {-1: 0})
    else:
        for i in xrange(n):
            self.crp.incorporate(i, self.crp.simulate(i, [self.outputs[0]],
                None, {-1: 0}), {-1: 0})
    self.dims = {}
    for i, c in enumerate(self.outputs[1:]):
        extra = []
        if distargs[i] is not None and 'inputs' in distargs[i]:
            extra = distargs[i]['inputs']['indexes']
        d = Dim(outputs=[c], inputs=[self.outputs[0]] + extra,
            cctype=cctypes[i], hypers=hypers[i], distargs=distargs[i],
            rng=self.rng)
        d.transition_hyper_grids(self.X[c])
        self.incorporate_dim(d)

def state_init(self, X, outputs=None, inputs=None, cctypes=None,
        distargs=None, Zv=None, Zrv=None, alpha=None, view_alphas=None,
        hypers=None, Cd=None, Ci=None, Rd=None, Ri=None, diagnostics=None,
        loom_path=None, rng=None):
    self.rng = gu.gen_rng() if rng is None else rng
    if inputs:
        raise ValueError()
    self.inputs = []
    X = np.asarray(X)
    if not outputs:
        outputs = range(X.shape[1])
    else:
        assert len(outputs) == X.shape[1]
        assert all(o >= 0 for o in outputs)
    self.set_outputs(outputs)
    self.X = OrderedDict()
    for i, c in enumerate(self.outputs):
        self.X[c] = X[:,i].tolist()
    if Rd is not None or Ri is not None:
        raise ValueError()
    self.Cd = Cd if Cd is not None else []
    self.Ci = Ci if Ci is not None else []
    self.Rd = {}
    self.Ri = {}
    self.crp_id = 5**8
    self.crp = Dim(outputs=[self.crp_id], inputs=[-1], cctype='crp',
        hypers={'alpha': alpha} if alpha is not None else None, rng=self.rng)
    self.crp.transition_hyper_grids([1] * self.n_cols())
    if Zv is not None:
        for c in Zv:
            self.crp.incorporate(c, {self.crp_id: Zv[c]}, {-1: 0})
    elif self.Ci or self.Cd:
        if self.outputs != range(self.n_cols()):
            raise ValueError()
        if self.Ci:
            Z = gu.simulate_crp_constrained(self.n_cols(), self.alpha(),
                self.Cd, self.Ci, self.Rd, self.Ri, rng=self.rng)
        else:
            Z = gu.simulate_crp_constrained_dependent(self.n_cols(),
                self.alpha(), self.Cd, rng=self.rng)
        for c, z in zip(self.outputs, Z):
            self.crp.incorporate(c, {self.crp_id: z}, {-1: 0})
    else:
        for c in self.outputs:
            self.crp.incorporate(c, self.crp.simulate(c, [self.crp_id], None,
                {-1: 0}), {-1: 0})
    assert len(self.Zv()) == len(self.outputs)
    cctypes = cctypes or [None] * len(self.outputs)
    distargs = distargs or [None] * len(self.outputs)
    hypers = hypers or [None] * len(self.outputs)
    view_alphas = view_alphas or {}
    if Zrv is None:
        Zrv = {}
    else:
        assert set(Zrv.keys()) == set(self.Zv().values())
    self.views = OrderedDict()
    self.crp_id_view = 10**7
    for v in set(self.Zv().values()):
        mine = [o for o in self.outputs if self.Zv(o) == v]
        self.views[v] = View(self.X, outputs=[self.crp_id_view + v] + mine,
            inputs=None, Zr=Zrv.get(v, None), alpha=view_alphas.get(v, None),
            cctypes=[cctypes[self.outputs.index(c)] for c in mine],
            distargs=[distargs[self.outputs.index(c)] for c in mine],
            hypers=[hypers[self.outputs.index(c)] for c in mine],
            rng=self.rng)
    self.token_generator = itertools.count(start=57481)
    self.hooked_cgpms = dict()
    if diagnostics is not None:
        self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
    else:
        self.diagnostics = defaultdict(list)
        self.diagnostics['iterations'] = dict()
    self._loom_path = loom_path
    self._update_is_composite()
'''


def build(ctx):
    k = Kit(ctx, 'construction', BUILD, 'build')
    ctx.rule('construction', 'constructors lay out the data, the partitions '
        'and the columns as the reference definitions do')
    k.one('mixtures.dim.Dim.__init__', 'dim_init', 'building a column',
        fresh=True)
    k.one('mixtures.view.View.__init__', 'view_init', 'building a view',
        fresh=True)
    k.one('crosscat.state.State.__init__', 'state_init', 'building a state',
        stop=('_update_is_composite', 'simulate_crp_constrained',
        'simulate_crp_constrained_dependent'), fresh=True)


def bookkeeping(ctx):
    books(ctx)
    build(ctx)

KERNEL = '''
import copy
import math
import numpy as np
from cgpm.mixtures.view import View
from cgpm.utils import general as gu
from cgpm.utils import sampling as su
from cgpm.primitives.normal_trunc import NormalTrunc
from cgpm.primitives.beta import Beta
from cgpm.mixtures.dim import Dim

def dim_params(self):
    if not self.is_collapsed():
        for k in self.clusters:
            self.clusters[k].transition_params()

def dim_hypers(self):
    order = [h for h in self.hypers if h in self.hyper_grids]
    self.rng.shuffle(order)
    for h in order:
        logps = []
        for g in self.hyper_grids[h]:
            self.hypers[h] = g
            lp = 0
            for k in self.clusters:
                self.clusters[k].set_hypers(self.hypers)
                lp += self.clusters[k].logpdf_score()
            logps.append(lp)
        i = gu.log_pflip(logps, rng=self.rng)
        self.hypers[h] = self.hyper_grids[h][i]
    for k in self.clusters:
        self.clusters[k].set_hypers(self.hypers)
    self.aux_model = self.create_aux_model()

def dim_grids(self, X, n_grid=30):
    self.hyper_grids = self.model.construct_hyper_grids(
        [x for x in X if not math.isnan(x)], n_grid=n_grid)
    for h in self.hyper_grids:
        if h not in self.hypers:
            self.hypers[h] = self.rng.choice(self.hyper_grids[h])
    self.aux_model = self.create_aux_model()

def view_transition(self, N=None):
    for _ in xrange(1 if N is None else N):
        self.transition_rows()
        self.transition_crp_alpha()
        self.transition_dim_hypers()

def view_alpha(self):
    self.crp.transition_hypers()
    self.crp.transition_hypers()

def view_alpha_b(self):
    self.crp.transition_hypers()

def view_hypers(self, cols=None):
    for c in self.dims.keys() if cols is None else cols:
        self.dims[c].transition_hypers()

def view_grids(self, cols=None):
    for c in self.dims.keys() if cols is None else cols:
        self.dims[c].transition_hyper_grids(self.X[c])

def view_rows(self, rows=None):
    rows = self.Zr().keys() if rows is None else rows
    for r in self.rng.permutation(rows):
        self._gibbs_transition_row(r)

def view_row(self, rowid):
    K = self.crp.clusters[0].gibbs_tables(rowid)
    crp = self.crp.clusters[0].gibbs_logps(rowid)
    data = self._logpdf_row_gibbs(rowid, K)
    assert len(data) == len(crp)
    z = gu.log_pflip(np.add(crp, data), array=K, rng=self.rng)
    if z != self.Zr(rowid):
        self._migrate_row(rowid, z)

def view_row_logp(self, rowid, K):
    return [sum([self._logpdf_cell_gibbs(rowid, self.dims[c], k)
        for c in self.dims]) for k in K]

def view_cell_logp(self, rowid, dim, k):
    x = {dim.index: self.X[dim.index][rowid]}
    y = self._get_input_values(rowid, dim, k)
    if k == self.Zr(rowid):
        dim.unincorporate(rowid)
        lp = dim.logpdf(rowid, x, None, y)
        dim.incorporate(rowid, x, y)
        return lp
    return dim.logpdf(rowid, x, None, y)

def state_alpha(self):
    self.crp.transition_hypers()
    self._increment_iterations('alpha')

def state_view_alphas(self, views=None, cols=None):
    if views is None:
        views = set(self.Zv(c) for c in cols) if cols else self.views
    for v in views:
        self.views[v].transition_crp_alpha()
    self._increment_iterations('view_alphas')

def state_params(self, cols=None):
    for c in self.outputs if cols is None else cols:
        self.dim_for(c).transition_params()
    self._increment_iterations('column_params')

def state_hypers(self, cols=None):
    for c in self.outputs if cols is None else cols:
        self.dim_for(c).transition_hypers()
    self._increment_iterations('column_hypers')

def state_grids(self, cols=None):
    for c in self.outputs if cols is None else cols:
        self.dim_for(c).transition_hyper_grids(self.X[c])
    self._increment_iterations('column_grids')

def state_rows(self, views=None, rows=None, cols=None):
    if self.n_rows() == 1:
        return
    if views is None:
        views = set(self.Zv(c) for c in cols) if cols else self.views
    for v in views:
        self.views[v].transition_rows(rows=rows)
    self._increment_iterations('rows')

def state_cols(self, cols=None, m=1):
    cols = self.outputs if cols is None else cols
    for c in self.rng.permutation(cols):
        self._gibbs_transition_dim(c, m)
    self._increment_iterations('columns')

def state_data_logp(self, view, dim):
    r = dim.is_collapsed() or not self._dim_is_member(view, dim)
    lp = view.incorporate_dim(dim, reassign=r)
    view.unincorporate_dim(dim)
    return lp

def state_proposal(self, view, dim):
    return dim if dim.is_collapsed() or self._dim_is_member(view, dim) \\
        else copy.deepcopy(dim)

def state_member(self, view, dim):
    return view is not None and dim.index in view.dims

def state_dim(self, col, m):
    if any(d.is_conditional() for d in self.dims()) or self.Cd:
        raise ValueError()
    dim = self.dim_for(col)
    views = sorted(self.views)
    props = [self._dim_get_proposal(self.views[v], dim) for v in views]
    data = [self._dim_get_data_logp(self.views[v], d)
        for v, d in zip(views, props)]
    tables = self.crp.clusters[0].gibbs_tables(col, m=m)
    aux = tables[len(self.views):]
    props_aux = [self._dim_get_proposal(None, dim) for _t in aux]
    views_aux = [View(self.X, outputs=[self.crp_id_view + t], rng=self.rng)
        for t in aux]
    data_aux = [self._dim_get_data_logp(v, d)
        for v, d in zip(views_aux, props_aux)]
    props.extend(props_aux)
    data.extend(data_aux)
    crp = self.crp.clusters[0].gibbs_logps(col, m=m)
    assert len(data) == len(crp)
    logps = np.add(data, crp)
    avoid = [a for p in self.Ci if col in p for a in p if a != col]
    for a in avoid:
        logps[views.index(self.Zv(a))] = float('-inf')
    assert len(tables) == len(logps)
    i = gu.log_pflip(logps, rng=self.rng)
    new, old = tables[i], self.Zv(col)
    if old == new:
        self.views[old].incorporate_dim(props[i],
            reassign=props[i].is_collapsed())
    else:
        if new > max(self.views):
            self._append_view(views_aux[i - len(self.views)], new)
        self._migrate_dim(old, new, props[i])

def crp_logps(self, rowid, m=1):
    assert rowid in self.data
    assert 0 < m
    alone = self.singleton(rowid)
    aux = self.alpha / float(m)
    def weight(t):
        if t == self.data[rowid]:
            return aux if alone else self.counts[self.data[rowid]] - 1
        if t not in self.counts:
            return aux
        return self.counts[t]
    return [math.log(weight(t)) for t in self.gibbs_tables(rowid, m=m)]

def crp_tables(self, rowid, m=1):
    assert 0 < m
    n = m - 1 if self.singleton(rowid) else m
    return sorted(self.counts) + [max(self.counts) + 1 + i for i in range(n)]

def crp_singleton(self, rowid):
    return self.counts[self.data[rowid]] == 1 if rowid in self.data else 0

def trunc_params(self):
    like = NormalTrunc.calc_log_likelihood
    prior = NormalTrunc.calc_log_prior
    norm = NormalTrunc.calc_log_normalizer
    self.mu = su.mh_sample(self.mu, lambda mu:
        like(self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
        + prior(mu, self.sigma, self.alpha, self.beta, self.l, self.h)
        - self.N * norm(mu, self.sigma, self.l, self.h),
        1, [self.l, self.h], burn=100, rng=self.rng)
    self.sigma = su.mh_sample(self.sigma, lambda sigma:
        like(self.N, self.sum_x, self.sum_x_sq, sigma, self.mu)
        + prior(self.mu, sigma, self.alpha, self.beta, self.l, self.h)
        - self.N * norm(self.mu, sigma, self.l, self.h),
        1, [0, float('inf')], burn=100, rng=self.rng)

def beta_params(self):
    like = Beta.calc_log_likelihood
    prior = Beta.calc_log_prior
    self.strength = su.mh_sample(self.strength, lambda s:
        like(self.N, self.sum_log_x, self.sum_minus_log_x, s, self.balance)
        + prior(s, self.balance, self.mu, self.alpha, self.beta),
        .5, [.0, float('Inf')], burn=100, rng=self.rng)
    self.balance = su.mh_sample(self.balance, lambda b:
        like(self.N, self.sum_log_x, self.sum_minus_log_x, self.strength, b)
        + prior(self.strength, b, self.mu, self.alpha, self.beta),
        .25, [0, 1], burn=100, rng=self.rng)

def linreg_hypers(self, N=None):
    d = Dim(self.outputs, [-10**8] + self.inputs, cctype=self.name(),
        hypers=self.get_hypers(), distargs=self.get_distargs(), rng=self.rng)
    d.clusters[0] = self
    d.transition_hyper_grids(self.data.x.values())
    for i in xrange(1 if N is None else N):
        d.transition_hypers()

def dist_hypers(self, N=None):
    d = Dim(self.outputs, [-10**8] + self.inputs, cctype=self.name(),
        hypers=self.get_hypers(), distargs=self.get_distargs(), rng=self.rng)
    d.clusters[0] = self
    d.transition_hyper_grids(X=self.data.values())
    for i in xrange(1 if N is None else N):
        d.transition_hypers()
'''


def column_kernel(k):
    S = 'crosscat.state.State.'
    st = ('_dim_get_proposal', '_dim_get_data_logp', '_append_view',
        '_migrate_dim', '_dim_is_member')
    k.one(S + '_gibbs_transition_dim', 'state_dim', 'moving a column', stop=st)


def state_steps(k):
    """The steps of a whole model: what they touch, and that they count."""
    S = 'crosscat.state.State.'
    st = ('_increment_iterations',)
    for n, r in (('transition_crp_alpha', 'state_alpha'),
            ('transition_view_alphas', 'state_view_alphas'),
            ('transition_dim_params', 'state_params'),
            ('transition_dim_hypers', 'state_hypers'),
            ('transition_dim_grids', 'state_grids'),
            ('transition_view_rows', 'state_rows')):
        k.one(S + n, r, 'step %s' % n[11:], stop=st + (
            'transition_crp_alpha',) if 'view_alphas' in n else st)
    k.one(S + 'transition_dims', 'state_cols', 'step dims',
        stop=st + ('_gibbs_transition_dim',))


def kernels(ctx):
    k = Kit(ctx, 'kernel', KERNEL, 'kernel')
    ctx.rule('kernel', 'every inference step weighs exactly the alternatives '
        'by prior times likelihood, draws one, and installs that one')
    V, S, D = 'mixtures.view.View.', 'crosscat.state.State.', \
        'mixtures.dim.Dim.'
    k.one(D + 'transition_params', 'dim_params', 'parameter step')
    k.one(D + 'transition_hypers', 'dim_hypers', 'hyperparameter step')
    k.one(D + 'transition_hyper_grids', 'dim_grids', 'hyperparameter grids')
    k.one(V + 'transition', 'view_transition', 'sweep of a view',
        stop=('transition_rows', 'transition_crp_alpha',
        'transition_dim_hypers'))
    k.one(V + 'transition_crp_alpha', ['view_alpha', 'view_alpha_b'],
        'concentration of a view')
    k.one(V + 'transition_dim_hypers', 'view_hypers', 'columns of a view')
    k.one(V + 'transition_dim_grids', 'view_grids', 'grids of a view')
    k.one(V + 'transition_rows', 'view_rows', 'rows of a view',
        stop=('_gibbs_transition_row',))
    k.one(V + '_gibbs_transition_row', 'view_row', 'moving a row',
        stop=('_logpdf_row_gibbs', '_migrate_row'))
    k.one(V + '_logpdf_row_gibbs', 'view_row_logp', 'likelihood of a row',
        stop=('_logpdf_cell_gibbs',))
    k.one(V + '_logpdf_cell_gibbs', 'view_cell_logp', 'likelihood of a cell',
        stop=('_get_input_values',))
    state_steps(k)
    k.one(S + '_dim_get_data_logp', 'state_data_logp',
        'likelihood of a column in a view', stop=('_dim_is_member',))
    k.one(S + '_dim_get_proposal', 'state_proposal', 'proposed column',
        stop=('_dim_is_member',))
    k.one(S + '_dim_is_member', 'state_member', 'membership of a column')
    column_kernel(k)
    C = 'primitives.crp.Crp.'
    k.one(C + 'gibbs_logps', 'crp_logps', 'prior weights of the tables',
        open=('gibbs_logps',), stop=('singleton',))
    k.one(C + 'gibbs_tables', 'crp_tables', 'tables to choose from',
        open=('gibbs_tables',), stop=('singleton',))
    k.one(C + 'singleton', 'crp_singleton', 'whether a customer sits alone')
    st = ('mh_sample', 'calc_log_likelihood', 'calc_log_prior',
        'calc_log_normalizer')
    k.one('primitives.normal_trunc.NormalTrunc.transition_params',
        'trunc_params', 'parameters of a truncated normal', stop=st)
    k.one('primitives.beta.Beta.transition_params', 'beta_params',
        'parameters of a beta', stop=st)
    k.one('regressions.linreg.LinearRegression.transition_hypers',
        'linreg_hypers', 'hyperparameters of a regression', fresh='all')
    k.one('primitives.normal.Normal.transition_hypers',
        'dist_hypers', 'hyperparameters of a single model', fresh='all')
    metropolis(ctx)
    ctx.require(len(ctx.obl), 28, 'inference steps')


def metropolis(ctx):
    """The random-walk sampler: from a symmetric step about the current point
    it accepts with the ratio of targets, and moves point and density as
    one."""
    R = ctx.rule('random-walk', 'the random-walk sampler steps around its '
        'current point, accepts by the ratio of the targets, and keeps point '
        'and density together')
    f = ctx.ix.fn('cgpm.utils.sampling.mh_sample')
    if f is None:
        ctx.violation(R, 'mh_sample', 'not found', '')
        return
    E = Effects(ctx, keep('gen_rng'), rewrite=facts)
    s = E.summ(f)
    cn = E.canon()
    x0, target = (mk('param', '#%d' % i) for i in range(2))
    rng = mk('param', '#%d' % f.params.index('rng'))

    def at(t):
        return mk('call', target, (t,), ())
    given = {mk('is', *a): FALSE for a in ((rng, NONE), (NONE, rng))}

    def norm(t):
        return cn(subst(t, given))
    def same(a, b):
        return a is b or norm(a) is norm(b) or equal(norm(a), norm(b))
    points = {p: v for p, v in s.an.bodies.items() if p.a[2] is x0}
    dens = {p: v for p, v in s.an.bodies.items() if p.a[2] is at(x0)}
    what = 'mh_sample'
    if len(points) != 1 or len(dens) != 1:
        ctx.violation(R, what, 'the walk does not carry one point that starts '
            'at the given one and one density that starts at its target',
            f.where())
        return
    (X, xs), (L, ls) = list(points.items())[0], list(dens.items())[0]
    ok = False
    if len(xs) == len(ls) == 1:
        x, l = (subst(t[0], given) for t in (xs, ls))
        if l.op == 'ite' and l.a[1] is L:
            c, new = not_(l.a[0]), l.a[2]
        elif l.op == 'ite' and l.a[2] is L:
            c, new = l.a[0], l.a[1]
        else:
            c = new = None
        if new is not None and new.op == 'call' and new.a[0] is target:
            prop = new.a[1][0]


            us = [u for u in subterms(c) if u.op == 'call' and
                last(u.a[0]) in ('rand', 'random', 'random_sample',
                    'uniform') and u.a[0].op == 'attr' and
                u.a[0].a[0] is rng and not u.a[1] and not u.a[2]]
            if len(us) == 1:
                d = sub(at(prop), L)
                lu = [v for v in subterms(c) if v.op == 'call' and
                    last(v.a[0]) == 'log' and v.a[1] == (us[0],)]
                want = [cmp_(o, x, y) for o in ('lt', 'le') for x, y in
                    [(us[0], mk('call', mk('glob', m + '.exp'), (d,), ()))
                    for m in ('math', 'numpy')] + [(v, d) for v in lu]]
                ok = any(same(c, w) for w in want) and \
                    same(x, ite(c, prop, X))
    ctx.check(ok, R, what + ' acceptance', 'a step is not accepted exactly '
        'when the log of a uniform number is below the difference of the '
        'targets, or moves the point without its density', f.where())
    if not ok:
        return
    Z, W = mk('param', 'noise'), mk('param', 'moved')
    zs = [z for z in subterms(prop) if z.op == 'call' and
        last(z.a[0]) in ('normal', 'uniform')]
    moved = {}
    for z in zs:
        if last(z.a[0]) == 'normal' and len(z.a[1]) == 2 and not z.a[2]:
            moved[z] = add(z.a[1][0], mul(z.a[1][1], Z))
    steps = {z.a[1][1] for z in moved}
    sym = len(moved) == len(zs) > 0 and len(steps) == 1
    if sym:
        j = list(steps)[0]
        t = cn(subst(subst(prop, moved), {X: sub(W, mul(j, Z))}))
        sym = not any(u is X or u is Z for u in subterms(t)) and \
            any(u is W for u in subterms(t))
    ctx.check(sym, R, what + ' proposal', 'a proposal is not a symmetric step '
        'about the current point', f.where())
    got = [subst(u.a[1], given) for u in subterms(s.result) if u.op == 'append']
    ctx.check(got and all(same(g, x) or g is X for g in got), R,
        what + ' samples', 'what is returned is not the point of the walk',
        f.where())
