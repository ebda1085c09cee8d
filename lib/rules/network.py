"""C19: queries of a network of models by importance sampling."""
from effects import *       # noqa
from rules.mixture import Kit, keep
from refspec import Ref
import core

TEXT = '''
import itertools
from math import isinf
from cgpm.network import helpers
from cgpm.utils.general import gen_rng, log_pflip, logmeanexp, merged

def init(self, cgpms, accuracy=None, rng=None):
    self.accuracy = 1 if accuracy is None else accuracy
    self.rng = rng or gen_rng(1)
    self.cgpms = helpers.validate_cgpms(cgpms)
    self.v_to_c = helpers.retrieve_variable_to_cgpm(self.cgpms)
    self.adjacency = helpers.retrieve_adjacency_list(self.cgpms, self.v_to_c)
    self.extraneous = helpers.retrieve_extraneous_inputs(
        self.cgpms, self.v_to_c)
    self.topo = helpers.topological_sort(self.adjacency)

def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
    given = {} if constraints is None else constraints
    fixed = {} if inputs is None else inputs
    drawn = [self.weighted_sample(rowid, targets, given, fixed)
        for _ in xrange(self.accuracy)]
    rows, w = zip(*drawn)
    if all([isinf(l) for l in w]):
        raise ValueError('impossible')
    pick = 0 if self.accuracy == 1 else log_pflip(w, rng=self.rng)
    row = rows[pick]
    return {q: row[q] for q in targets}

def logpdf(self, rowid, targets, constraints=None, inputs=None):
    given = {} if constraints is None else constraints
    fixed = {} if inputs is None else inputs
    both = merged(targets, given)
    _, w = zip(*[self.weighted_sample(rowid, [], both, fixed)
        for _ in xrange(self.accuracy)])
    joint = logmeanexp(w)
    if given:
        _, v = zip(*[self.weighted_sample(rowid, [], given, fixed)
            for _ in xrange(self.accuracy)])
    else:
        v = [0.]
    if all([isinf(l) for l in v]):
        raise ValueError('impossible')
    return joint - logmeanexp(v)

def weighted_sample(self, rowid, targets, constraints, inputs):
    wanted = list(targets) + self.retrieve_required_inputs(targets, constraints)
    sample = dict(constraints)
    weight = 0
    for l in self.topo:
        drawn, lp = self.invoke_cgpm(
            rowid, self.cgpms[l], wanted, sample, inputs)
        sample.update(drawn)
        weight += lp
    assert set(sample) == set.union(set(constraints), set(wanted))
    return sample, weight

def invoke_cgpm(self, rowid, cgpm, targets, constraints, inputs):
    given = {e: x
        for e, x in itertools.chain(
            inputs.iteritems(), constraints.iteritems())
        if e in cgpm.inputs}
    known = {e: x for e, x in constraints.iteritems() if e in cgpm.outputs}
    want = [q for q in targets if q in cgpm.outputs]
    if known or want:
        assert all([i in given for i in cgpm.inputs])
    if known:
        lp = cgpm.logpdf(rowid, targets=known, constraints=None, inputs=given)
    else:
        lp = 0
    if want:
        drawn = cgpm.simulate(
            rowid, targets=want, constraints=known, inputs=given)
    else:
        drawn = {}
    return drawn, lp

'''

# Ways to ask a decorated method for samples, and what they mean.
REPEAT = '''
from cgpm.utils.general import simulate_many

def place(f, s, r, t, c, i, N):
    return simulate_many(f)(s, r, t, c, i, N)

def place_(f, s, r, t, c, i, N):
    if N is None:
        return f(s, r, t, c, i, N)
    return [f(s, r, t, c, i, N) for _ in xrange(N)]

def word(f, s, r, t, c, i, N):
    return simulate_many(f)(s, r, t, c, i, N=N)

def word_(f, s, r, t, c, i, N):
    if N is None:
        return f(s, r, t, c, i, N=N)
    return [f(s, r, t, c, i, N=N) for _ in xrange(N)]

def words(f, s, r, t, c, i, N):
    return simulate_many(f)(s, r, targets=t, inputs=i, N=N)

def words_(f, s, r, t, c, i, N):
    if N is None:
        return f(s, r, targets=t, inputs=i, N=N)
    return [f(s, r, targets=t, inputs=i, N=N) for _ in xrange(N)]

def none(f, s, r, t, c, i, N):
    return simulate_many(f)(s, r, t, c, i)

def none_(f, s, r, t, c, i, N):
    return f(s, r, t, c, i)

def null(f, s, r, t, c, i, N):
    return simulate_many(f)(s, r, t, c, i, None)

def null_(f, s, r, t, c, i, N):
    return f(s, r, t, c, i, None)

def part(f, s, r, t, c, i, N):
    return simulate_many(f)(s, r, t, c)

def part_(f, s, r, t, c, i, N):
    return f(s, r, t, c)
'''


def repeat(ctx, K, use):
    R = Ref(ctx, REPEAT, 'repeat')
    agree(ctx, K.rule, R.fn(use), [use + '_'], R, 'N samples are N '
        'independent calls, and no N is one call', Effects(ctx, keep(
        open=('simulate_many',))),
        where=ctx.ix.fn('cgpm.utils.general.simulate_many').where(),
        construct='simulate_many:' + use)


def run(ctx):
    r = ctx.rule('network.weight', 'A sample of the network draws each model '
        'once, in topological order, given everything already known, and '
        'weighs it by the likelihood of what is constrained; queries combine '
        'the weights.')
    K = Kit(ctx, r, TEXT, 'network')
    HELP = ('validate_cgpms', 'retrieve_variable_to_cgpm', 'topological_sort',
        'retrieve_adjacency_list', 'retrieve_extraneous_inputs')
    N = 'network.importance.ImportanceNetwork.'
    stop = ('weighted_sample', 'invoke_cgpm', 'retrieve_required_inputs')
    K.one(N + '__init__', 'init', 'the network keeps its models, its '
        'random stream, its accuracy, and their order', stop=HELP)
    K.one(N + 'simulate', 'simulate', 'one weighted sample is picked in '
        'proportion to its weight', stop=stop)
    K.one(N + 'logpdf', 'logpdf', 'the joint density over the density of '
        'the constraints', stop=stop)
    K.one(N + 'weighted_sample', 'weighted_sample', 'each model in '
        'topological order', stop=stop)
    K.one(N + 'invoke_cgpm', 'invoke_cgpm', 'a model sees its own inputs, '
        'constraints and targets', stop=stop)
    for use in ('place', 'word', 'words', 'none', 'null', 'part'):
        repeat(ctx, K, use)
    r2 = ctx.rule('network.samples', 'A method wrapped to repeat itself takes '
        'the number of samples as its last argument.')
    for c in ctx.ix.all_classes():
        for f in c.methods.values():
            if not any(d.split('.')[-1] == 'simulate_many'
                    for d in f.decorators):
                continue
            ctx.check(len(f.params) == 6 and f.params[-1] == 'N' and
                not f.vararg, r2, f.short, 'the number of samples is taken '
                'from the sixth argument, by the name of N; the parameters '
                'are %s' % ', '.join(f.params), f.where())
