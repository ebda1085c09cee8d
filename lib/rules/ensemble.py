"""C08: an ensemble applies each operation to each selected model."""
from effects import *       # noqa
from rules.mixture import Kit
import core

# Operations on every model, which are put back in order.
EVERY = {
    'incorporate_dim': 'T, outputs, inputs=None, cctype=None, distargs=None, '
        'v=None',
    'unincorporate_dim': 'col',
    'incorporate': 'rowid, observation, inputs=None',
    'incorporate_bulk': 'rowids, observations, inputs=None',
    'unincorporate': 'rowid',
    'force_cell': 'rowid, observation',
    'force_cell_bulk': 'rowids, queries',
    'update_cctype': 'col, cctype, distargs=None',
}
# Operations on selected models, which are put back in their places.
SOME = {
    'transition': 'N=None, S=None, kernels=None, rowids=None, cols=None, '
        'views=None, progress=True, checkpoint=None',
    'transition_lovecat': 'N=None, S=None, kernels=None, rowids=None, '
        'cols=None, progress=None, checkpoint=None',
    'transition_foreign': 'N=None, S=None, cols=None, progress=True',
}
# Queries of selected models; random ones reseed every model first.
QUERY = {
    'logpdf': ('rowid, targets, constraints=None, inputs=None, accuracy=None',
        ''),
    'logpdf_bulk': ('rowids, targets_list, constraints_list=None, '
        'inputs_list=None', ''),
    'logpdf_score': ('', ''),
    'logpdf_likelihood': ('', ''),
    'simulate': ('rowid, targets, constraints=None, inputs=None, N=None, '
        'accuracy=None', 'seed'),
    'simulate_bulk': ('rowids, targets_list, constraints_list=None, '
        'inputs_list=None, Ns=None', 'seed'),
    'mutual_information': ('col0, col1, constraints=None, T=None, N=None, '
        'progress=None', 'seed'),
    'dependence_probability': ('col0, col1', ''),
    'dependence_probability_pairwise': ('colnos=None', ''),
    'row_similarity': ('row0, row1, cols=None', ''),
    'row_similarity_pairwise': ('cols=None', ''),
    'relevance_probability': ('rowid_target, rowid_query, col, '
        'hypotheticals=None', ''),
}

TEXT = '''
import importlib
import itertools
import pickle
import numpy as np
from cgpm.crosscat.state import State
from cgpm.crosscat.loomcat import transition_engine
from cgpm.utils.general import gen_rng, log_pflip, logmeanexp, \\
    logmeanexp_weighted

def init(self, X, num_states=1, rng=None, multiprocess=1, **kwargs):
    self.rng = gen_rng(1) if rng is None else rng
    X = np.asarray(X)
    self.states = [State(X, rng=gen_rng(seed), **kwargs)
        for seed in self._get_seeds(num_states)]

def compose_cgpm(self, cgpms, multiprocess=1):
    new = []
    for s in xrange(self.num_states()):
        state = self.states[s]
        meta = cgpms[s].to_metadata()
        builder = getattr(importlib.import_module(meta['factory'][0]),
            meta['factory'][1])
        state.compose_cgpm(builder.from_metadata(meta, rng=state.rng))
        new.append(state)
    self.states = new

def alter(self, funcs, statenos=None, multiprocess=1):
    which = statenos or xrange(self.num_states())
    new = []
    for s in which:
        state = self.states[s]
        for func in funcs:
            state = func(state)
        new.append(state)
    for s, state in zip(which, new):
        self.states[s] = state

def transition_loom(self, N=None, S=None, kernels=None, progress=None,
        checkpoint=None, multiprocess=1):
    transition_engine(self, N=N, S=S, kernels=kernels, progress=progress,
        checkpoint=checkpoint)

def get_state(self, index):
    return self.states[index]

def drop_state(self, index):
    del self.states[index]

def num_states(self):
    return len(self.states)

def seed_states(self):
    for seed, state in zip(self._get_seeds(), self.states):
        state.rng.seed(seed)

def get_seeds(self, N=None):
    n = N if N is not None else self.num_states()
    return self.rng.randint(low=1, high=2**32-1, size=n)

def integrate(self, logpdfs, rowid, constraints=None, inputs=None,
        statenos=None, multiprocess=1):
    if constraints:
        w = self.logpdf(rowid, constraints, None, inputs,
            statenos=statenos, multiprocess=multiprocess)
        return logmeanexp_weighted(logpdfs, w)
    return logmeanexp(logpdfs)

def resample(self, samples, rowid, constraints=None, inputs=None,
        statenos=None, multiprocess=1):
    N = len(samples[0])
    if constraints:
        w = self.logpdf(rowid, constraints, None, inputs,
            statenos=statenos, multiprocess=multiprocess)
    else:
        w = np.zeros(len(samples))
    counts = np.bincount(log_pflip(w, size=N, rng=self.rng))
    picked = [self.rng.choice(N, size=n, replace=False) for n in counts]
    return list(itertools.chain.from_iterable(
        [[s[i] for i in index] for s, index in zip(samples, picked)
            if len(index) > 0]))

def to_metadata(self):
    meta = dict()
    meta['X'] = self.states[0].data_array().tolist()
    meta['states'] = [s.to_metadata() for s in self.states]
    for m in meta['states']:
        del m['X']
    meta['factory'] = ('cgpm.crosscat.engine', 'Engine')
    return meta

def simulate_bulk_model(self, rowids, targets_list, constraints_list=None,
        inputs_list=None, Ns=None):
    if constraints_list is None:
        constraints_list = [{} for i in range(len(rowids))]
    if inputs_list is None:
        inputs_list = [{} for i in range(len(rowids))]
    if Ns is None:
        Ns = [1 for i in range(len(rowids))]
    assert len(rowids) == len(targets_list)
    assert len(rowids) == len(constraints_list)
    assert len(rowids) == len(inputs_list)
    assert len(rowids) == len(Ns)
    return [self.simulate(r, t, c, i, n) for r, t, c, i, n in
        zip(rowids, targets_list, constraints_list, inputs_list, Ns)]

def logpdf_bulk_model(self, rowids, targets_list, constraints_list=None,
        inputs_list=None):
    if constraints_list is None:
        constraints_list = [{} for i in range(len(rowids))]
    if inputs_list is None:
        inputs_list = [{} for i in range(len(rowids))]
    assert len(rowids) == len(targets_list)
    assert len(rowids) == len(constraints_list)
    assert len(rowids) == len(inputs_list)
    return [self.logpdf(r, t, c, i) for r, t, c, i in
        zip(rowids, targets_list, constraints_list, inputs_list)]

def incorporate_bulk_model(self, rowids, observations, inputs=None):
    for rowid, observation in zip(rowids, observations):
        self.incorporate(rowid, observation, inputs)

def force_cell_bulk_model(self, rowids, queries):
    for rowid, query in zip(rowids, queries):
        self.force_cell(rowid, query)
'''


def _names(sig):
    return ', '.join(p.split('=')[0].strip() for p in sig.split(',')
        if p.strip())


def _sig(sig):
    return ', ' + sig if sig else ''


def text():
    out = [TEXT]
    for m, sig in sorted(EVERY.items()):
        out.append('''
def every_%s(self%s, multiprocess=1):
    new = []
    for s in xrange(self.num_states()):
        state = self.states[s]
        state.%s(%s)
        new.append(state)
    self.states = new
''' % (m, _sig(sig), m, _names(sig)))
    for m, sig in sorted(SOME.items()):
        out.append('''
def some_%s(self%s, statenos=None, multiprocess=1):
    which = statenos or xrange(self.num_states())
    new = []
    for s in which:
        self.states[s].%s(%s)
        new.append(self.states[s])
    for s, state in zip(which, new):
        self.states[s] = state
''' % (m, _sig(sig), m, _names(sig)))
    for m, (sig, seed) in sorted(QUERY.items()):
        out.append('''
def query_%s(self%s, statenos=None, multiprocess=1):%s
    which = statenos or xrange(self.num_states())
    return [self.states[s].%s(%s) for s in which]
''' % (m, _sig(sig), '\n    self._seed_states()' if seed else '', m,
            _names(sig)))
    return ''.join(out)


def run(ctx):
    E, S = 'crosscat.engine.Engine.', 'crosscat.state.State.'
    k = Kit(ctx, 'every', text(), 'ensemble')
    stop = tuple(set(EVERY) | set(SOME) | set(QUERY) | {'compose_cgpm',
        'data_array', 'to_metadata', '_get_seeds', '_seed_states'})
    ctx.rule('every', 'a change is made to every model with the given '
        'arguments, and every model is put back in order')
    for m in sorted(EVERY):
        k.one(E + m, 'every_' + m, 'the change of every model', stop=stop)
    k.one(E + 'compose_cgpm', 'compose_cgpm', 'each model is composed with '
        'its own cgpm', stop=stop)
    ctx.rule('some', 'inference and changes of selected models are put back '
        'in the places they came from')
    for m in sorted(SOME):
        k.one(E + m, 'some_' + m, 'the work on selected models', stop=stop,
            rule='some')
    k.one(E + 'alter', 'alter', 'the work on selected models', stop=stop,
        rule='some')
    k.one(E + 'transition_loom', 'transition_loom', 'the work of loom on '
        'every model', stop=stop + ('transition_engine',), rule='some')
    ctx.rule('query', 'a query is asked of each selected model with the '
        'given arguments, and answered in the order of the selection')
    for m in sorted(QUERY):
        k.one(E + m, 'query_' + m, 'the query of selected models', stop=stop,
            rule='query')
    ctx.rule('bulk', 'a bulk request pairs its lists element by element')
    for m in ('simulate_bulk', 'logpdf_bulk', 'incorporate_bulk',
            'force_cell_bulk'):
        k.one(S + m, m + '_model', 'the requests of a bulk request',
            stop=stop, rule='bulk')
    ctx.rule('combine', 'answers of models are combined with the likelihood '
        'of the evidence under each')
    k.one(E + '_likelihood_weighted_integrate', 'integrate',
        'the weighted average', stop=stop, rule='combine')
    k.one(E + '_likelihood_weighted_resample', 'resample',
        'the weighted resample', stop=stop, rule='combine')
    ctx.rule('models', 'the ensemble is built from, reports and drops its '
        'models')
    for m, r in (('__init__', 'init'), ('get_state', 'get_state'),
            ('drop_state', 'drop_state'), ('num_states', 'num_states'),
            ('_seed_states', 'seed_states'), ('_get_seeds', 'get_seeds')):
        k.one(E + m, r, 'models of the ensemble', rule='models',
            stop=set(stop) - {m})
    ctx.require(len(ctx.obl), 34, 'operations of the ensemble')
