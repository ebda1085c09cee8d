"""C25: inference runs what was asked, for as long as asked, and logs it."""
from effects import *       # noqa
from rules import exchange
from rules.mixture import Kit, KERNEL, state_steps
import budget
import core
import front

STATE = '''
import itertools
from collections import OrderedDict
from cgpm.crosscat import lovecat
from cgpm.crosscat import loomcat

def transition(self, N=None, S=None, kernels=None, rowids=None, cols=None,
        views=None, progress=True, checkpoint=None):
    if cols and any(c not in self.outputs for c in cols):
        raise ValueError()
    table = OrderedDict([
        ('alpha', lambda: self.transition_crp_alpha()),
        ('view_alphas', lambda: self.transition_view_alphas(
            views=views, cols=cols)),
        ('column_params', lambda: self.transition_dim_params(cols=cols)),
        ('column_hypers', lambda: self.transition_dim_hypers(cols=cols)),
        ('rows', lambda: self.transition_view_rows(
            views=views, cols=cols, rows=rowids)),
        ('columns', lambda: self.transition_dims(cols=cols))])
    if kernels is None:
        kernels = table.keys()
    todo = [table[k] for k in kernels]
    assert todo
    self._transition_generic(todo, N=N, S=S, progress=progress,
        checkpoint=checkpoint)

def foreign(self, N=None, S=None, cols=None, progress=None):
    if cols is None:
        cols = list(itertools.chain.from_iterable(
            c.outputs for c in self.hooked_cgpms.values()))
    if any(c in self.outputs for c in cols):
        raise ValueError()
    def step(token):
        def kernel():
            self.hooked_cgpms[token].transition()
            self._increment_iterations('foreign-%s' % (token,))
        return kernel
    self._transition_generic([step(t) for t in self.hooked_cgpms
        if any(i in self.hooked_cgpms[t].outputs for i in cols)],
        N=N, S=S, progress=progress)

def count(self, kernel, N=1):
    log = self.diagnostics['iterations']
    log[kernel] = log.get(kernel, 0) + N

def record(self):
    self.diagnostics['logscore'].append(self.logpdf_score())
    self.diagnostics['column_crp_alpha'].append(self.alpha())
    self.diagnostics['column_partition'].append(self.Zv().items())

def via_lovecat(self, N=None, S=None, kernels=None, rowids=None, cols=None,
        progress=None, checkpoint=None):
    if any(c not in ['normal', 'categorical'] for c in self.cctypes()):
        raise ValueError()
    if any(d.is_conditional() for d in self.dims()):
        raise ValueError()
    seed = self.rng.randint(1, 2**31-1)
    lovecat.transition(self, N=N, S=S, kernels=kernels, rowids=rowids,
        cols=cols, seed=seed, progress=progress, checkpoint=checkpoint)
    self.transition_dim_hypers()
    self.transition_crp_alpha()
    self.transition_view_alphas()

def via_loom(self, N=None, S=None, kernels=None, progress=None,
        checkpoint=None, seed=None):
    loomcat.transition(self, N=N, S=S, kernels=kernels, progress=progress,
        checkpoint=checkpoint, seed=seed)
    self.transition(N=1, kernels=['column_hypers', 'column_params', 'alpha',
        'view_alphas'])
'''


def run(ctx):
    ctx.rule('budget', 'every kernel call follows a test that the budget is '
        'not spent, none follows the test that it is, a sweep counts when '
        'all its kernels have run in order, and diagnostics are recorded '
        'right after the sweeps the checkpoint names')
    cls = ctx.ix.cls('cgpm.crosscat.state.State')
    f = cls.lookup('_transition_generic')
    if f is None:
        raise front.AnalysisBroken('C25: State._transition_generic not found')
    ctx.saw(f)
    b = budget.Budget(ctx, f, cls)
    try:
        n = b.run()
        bad = dict(b.bad)
    except budget.Unknown as e:
        n, bad = 0, {'cannot be established: %s' % e: f.node}
    for kind, words in (('tested', 'a test'), ('spent', 'is found spent'),
            ('order', 'sweep'), ('recorded', 'diagnostics')):
        mine = [m for m in bad if words in m]
        for m in mine:
            ctx.violation('budget', f.short + '@' + kind, m, '%s:%d' % (
                f.where().rsplit(':', 1)[0], bad.pop(m).lineno))
        if not mine:
            ctx.ok('budget', f.short + '@' + kind)
    for m, node in bad.items():
        ctx.violation('budget', f.short, m, f.where())
    if not bad:
        ctx.check(b.kernel_calls and b.tests, 'budget', f.short,
            'no kernel call or no test of the budget is reachable', f.where())
    ctx.notes.append('%d configurations of the request, %d abstract states, '
        '%d kernel call sites, %d budget tests' % (n, b.visited,
        len(b.kernel_calls), len(b.tests)))
    ctx.rule('request', 'the named kernels, in order, are given the requested '
        'rows, columns and groups, and the requested budget')
    k = Kit(ctx, 'request', STATE, 'budget')
    S = 'crosscat.state.State.'
    st = ('_transition_generic', 'transition_crp_alpha',
        'transition_view_alphas', 'transition_dim_params',
        'transition_dim_hypers', 'transition_view_rows', 'transition_dims',
        '_increment_iterations', 'is_conditional', 'dims', 'cctypes',
        'logpdf_score', 'alpha', 'Zv', 'transition')
    k.one(S + 'transition', 'transition', 'running kernels', stop=st)
    k.one(S + 'transition_foreign', 'foreign', 'running foreign kernels',
        stop=st)
    k.one(S + 'transition_lovecat', 'via_lovecat', 'running lovecat', stop=st)
    k.one(S + 'transition_loom', 'via_loom', 'running loom', stop=st)
    ctx.rule('log', 'each step is counted once, and a checkpoint records the '
        'score, the concentration and the partition of the columns')
    k = Kit(ctx, 'log', STATE, 'budget')
    k.one(S + '_increment_iterations', 'count', 'counting a step', stop=st)
    k.one(S + '_increment_diagnostics', 'record', 'recording', stop=st)
    state_steps(Kit(ctx, 'log', KERNEL, 'kernel'))
    exchange.transitions(ctx)
    ctx.require(len(ctx.obl), 12, 'budget sites')

