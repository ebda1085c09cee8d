"""C20: declared dependence and independence of columns always hold."""
from effects import *       # noqa
from rules import mixture
from rules.mixture import Kit, BOOKS, BUILD, column_kernel, KERNEL
import core

SIM = '''
import math
import cgpm.utils.validation as vu
from cgpm.utils.general import pflip, gen_rng

def constrained(N, alpha, Cd, Ci, Rd, Ri, rng=None):
    if rng is None:
        rng = gen_rng()
    vu.validate_crp_constrained_input(N, Cd, Ci, Rd, Ri)
    assert N > 0 and alpha > 0.
    Z = [-1] * N
    friends = {col: block for block in Cd for col in block}
    for cust in range(N):
        if Z[cust] > -1:
            continue
        group = friends.get(cust, [cust])
        prob = [0] * (max(Z) + 1)
        for t in range(max(Z) + 1):
            here = [i for i, z in enumerate(Z) if z == t]
            prob[t] = len(here)
            for other in here:
                for f in group:
                    if not vu.check_compatible_customers(
                            Cd, Ci, Ri, Rd, f, other):
                        prob[t] = 0
                        break
        z = pflip(prob + [alpha], rng=rng)
        for f in group:
            Z[f] = z
    return Z

def constrained_b(N, alpha, Cd, Ci, Rd, Ri, rng=None):
    if rng is None:
        rng = gen_rng()
    vu.validate_crp_constrained_input(N, Cd, Ci, Rd, Ri)
    assert N > 0 and alpha > 0.
    Z = [-1] * N
    friends = {col: block for block in Cd for col in block}
    for cust in range(N):
        if Z[cust] > -1:
            continue
        group = friends.get(cust, [cust])
        prob = [0] * (max(Z) + 1)
        for t in range(max(Z) + 1):
            here = [i for i, z in enumerate(Z) if z == t]
            prob[t] = len(here) if all(vu.check_compatible_customers(
                Cd, Ci, Ri, Rd, f, o) for o in here for f in group) else 0
        z = pflip(prob + [alpha], rng=rng)
        for f in group:
            Z[f] = z
    return Z

def constrained_c(N, alpha, Cd, Ci, Rd, Ri, rng=None):
    if rng is None:
        rng = gen_rng()
    vu.validate_crp_constrained_input(N, Cd, Ci, Rd, Ri)
    assert N > 0 and alpha > 0.
    Z = [-1] * N
    friends = {col: block for block in Cd for col in block}
    for cust in range(N):
        if Z[cust] > -1:
            continue
        group = friends.get(cust, [cust])
        seated = [[i for i, z in enumerate(Z) if z == t]
            for t in range(max(Z) + 1)]
        prob = [len(here) if all(vu.check_compatible_customers(
                Cd, Ci, Ri, Rd, f, o) for o in here for f in group) else 0
            for here in seated]
        z = pflip(prob + [alpha], rng=rng)
        for f in group:
            Z[f] = z
    return Z

'''


ENGINE = '''
from cgpm.crosscat.engine import _intialize
from cgpm.utils.parallel_map import parallel_map

def add_state(self, count=1, multiprocess=1, **kwargs):
    first = self.states[0]
    if first.is_composite() or any(f in kwargs
            for f in ['X', 'outputs', 'cctypes', 'distargs']):
        raise ValueError()
    kwargs['cctypes'] = first.cctypes()
    kwargs['distargs'] = first.distargs()
    kwargs['outputs'] = first.outputs
    kwargs.setdefault('Cd', first.Cd)
    kwargs.setdefault('Ci', first.Ci)
    m = parallel_map if multiprocess else map
    self.states.extend(m(_intialize, [(first.data_array(), seed, kwargs)
        for seed in self._get_seeds(count)]))
'''


def run(ctx):
    from rules import valid, logdom, exchange
    S = 'crosscat.state.State.'
    k = Kit(ctx, 'sampler', SIM, 'constraint')
    ctx.rule('sampler', 'a column and its dependents are seated together, '
        'never at a table holding a column declared independent of one')
    k.fun('utils.general.simulate_crp_constrained', ['constrained',
        'constrained_b', 'constrained_c'], 'drawing a constrained partition',
        stop=('validate_crp_constrained_input',
        'check_compatible_customers'), rejects=False)
    logdom.dependent(ctx)
    valid.columns(ctx)
    k = Kit(ctx, 'state', BUILD, 'build')
    ctx.rule('state', 'a model starts from a partition drawn under its '
        'constraints, keeps them in every move of a column, and forgets '
        'those of a removed column')
    k.one(S + '__init__', 'state_init', 'building a state',
        stop=('_update_is_composite', 'simulate_crp_constrained',
        'simulate_crp_constrained_dependent'), fresh=True)
    column_kernel(Kit(ctx, 'state', KERNEL, 'kernel'))
    k = Kit(ctx, 'state', BOOKS, 'books')
    st = ('_delete_view', '_append_view', '_update_is_composite',
        'set_outputs')
    k.one(S + 'unincorporate_dim', 'state_unincorporate_dim',
        'removing a column', stop=st)
    k = Kit(ctx, 'score', mixture.SCORES, 'scores')
    ctx.rule('score', 'the prior of the column partition is that under the '
        'constraints')
    k.one(S + 'logpdf_score_crp', 'state_crp', 'prior of the state')
    ctx.rule('ensemble', 'a state added to an ensemble has the constraints '
        'of the others')
    k = Kit(ctx, 'ensemble', ENGINE, 'cengine')
    k.one('crosscat.engine.Engine.add_state', 'add_state', 'adding states',
        stop=('_intialize', '_get_seeds', 'parallel_map', 'data_array', 'cctypes',
        'distargs'))
    ctx.rule('export', 'lovecat is given the constraints, by column index')
    exchange.ensure(ctx, 'export')
    ctx.require(len(ctx.obl), 18, 'constraints')
