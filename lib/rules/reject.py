"""C11: requests are rejected exactly when malformed.

For each model and operation the condition under which the operation raises
or fails an assertion of its own (helpers, inherited checks called on the same
object and unbound base methods followed; the objects it delegates to have
their own entries) is compared with a reference written from the meaning of
the request.  Second rule: on no path does an operation change the model and
then turn the request down."""
from effects import *       # noqa
import core
from rules.mixture import KEEP, rows

SELF = mk('param', 'self')
FACE = {'incorporate', 'unincorporate', 'logpdf', 'simulate', 'logpdf_score',
    'transition', 'logpdf_likelihood', 'incorporate_dim', '__init__',
    'unincorporate_dim', 'force_cell', 'update_cctype', 'get_suffstats',
    'transition_rows', 'transition_dims', 'transition_dim_grids',
    'transition_dim_hypers', 'transition_dim_params', '_check_partitions',
    'dummy_code', 'transition_params', 'transition_hyper_grids',
    'transition_hypers', '_increment_diagnostics', '_increment_iterations',
    'transition_crp_alpha', 'transition_view_alphas', 'transition_view_rows',
    'dependence_probability', 'row_similarity', 'validate_cgpms',
    'retrieve_variable_to_cgpm', 'retrieve_adjacency_list', '_predictor_count',
    'retrieve_extraneous_inputs', 'topological_sort', 'set_hypers',
    'retrieve_required_inputs', 'state_logpdf', 'state_simulate',
    '_delete_view', '_append_view', 'posterior_hypers', '_simulate_params',
    'calc_log_Z', 'view_logpdf', 'view_simulate'}
OPEN = {'_validate_cgpm_query', 'preprocess', '_populate_constraints',
    'merged'}


def own(*stop, **kw):
    stops = (((KEEP | FACE) - OPEN) | set(stop)) - set(kw.get('open', ()))

    def pred(f, recv, an):
        if f.name in stops or f.name == 'merged':
            return recv is SELF and f.cls is not None and \
                f.name in FACE and f.cls.name in ('CGpm', 'DistributionGpm')
        return core.default_inline(f, recv, an)
    return pred


REF = '''
import math
import numpy as np
from math import isnan
from cgpm.utils import data as du
from cgpm.utils.general import merged

# -- Distributions -----------------------------------------------------------

def dist_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.data or inputs or observation.keys() != self.outputs:
        raise ValueError()

def dist_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if rowid in self.data or inputs or constraints \\
            or targets.keys() != self.outputs:
        raise ValueError()

def crp_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if inputs or constraints or targets.keys() != self.outputs:
        raise ValueError()

def dist_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if inputs or constraints or targets != self.outputs:
        raise ValueError()

def dist_init(self, outputs, inputs, hypers=None, params=None, distargs=None,
        rng=None):
    if len(outputs) != 1 or inputs:
        raise ValueError()

# -- Dim ---------------------------------------------------------------------

def dim_init(self, outputs, inputs, cctype=None, hypers=None, params=None,
        distargs=None, rng=None):
    if len(outputs) != 1 or not inputs:
        raise ValueError()

def dim_preprocess(self, targets, constraints, inputs):
    cluster = inputs.copy()
    try:
        k = cluster.pop(self.inputs[0])
    except KeyError:
        raise ValueError()
    if constraints and any(np.isnan(constraints.values())):
        raise ValueError()

def dim_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.Zr or rowid in self.Zi:
        raise ValueError()
    cluster = inputs.copy()
    try:
        k = cluster.pop(self.inputs[0])
    except KeyError:
        raise ValueError()

def dim_unincorporate(self, rowid):
    if rowid not in self.Zr and rowid not in self.Zi:
        raise ValueError()

def dim_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    cluster = inputs.copy()
    try:
        k = cluster.pop(self.inputs[0])
    except KeyError:
        raise ValueError()
    if constraints and any(np.isnan(constraints.values())):
        raise ValueError()
    if inputs and any(np.isnan(cluster.values())):
        raise ValueError()
    if isinstance(targets, dict) and isnan(targets[self.index]):
        raise ValueError()

def dim_query(self, rowid, targets, constraints=None, inputs=None, N=None):
    cluster = inputs.copy()
    try:
        k = cluster.pop(self.inputs[0])
    except KeyError:
        raise ValueError()
    if constraints and any(np.isnan(constraints.values())):
        raise ValueError()

# -- View --------------------------------------------------------------------

def view_validate(self, rowid, targets, constraints):
    if isinstance(targets, (list, tuple)) \\
            and len(set(targets)) != len(targets):
        raise ValueError()
    if set(targets) & set(constraints):
        raise ValueError()
    if not self.hypothetical(rowid):
        z = self.outputs[0]
        if z in targets or z in constraints:
            raise ValueError()
        for e in constraints:
            if e in self.outputs and not np.isnan(self.X[e][rowid]) \\
                    and not np.allclose(self.X[e][rowid], constraints[e]):
                raise ValueError()

def view_query(self, rowid, targets, constraints=None, inputs=None, N=None):
    given = {} if constraints is None else constraints
    view_validate(self, rowid, targets, given)

def view_incorporate(self, rowid, observation, inputs=None):
    pass

def view_bulk(self, dim):
    if merged(dim.Zr, dim.Zi) != self.Zr():
        raise ValueError()

# -- State -------------------------------------------------------------------

def state_validate(self, rowid, targets, constraints):
    new = self.hypothetical(rowid)
    listed = isinstance(targets, (list, tuple))
    if listed and len(set(targets)) != len(targets):
        raise ValueError()
    if not new and not listed:
        for q in targets:
            if q in self.outputs and not np.isnan(self.X[q][rowid]):
                raise ValueError()
    if constraints and set(targets) & set(constraints):
        raise ValueError()
    if constraints and not new:
        for e in constraints:
            if e in self.outputs and not np.isnan(self.X[e][rowid]) \\
                    and not np.allclose(self.X[e][rowid], constraints[e]):
                raise ValueError()

def state_logpdf(self, rowid, targets, constraints=None, inputs=None,
        accuracy=None):
    if not isinstance(targets, dict):
        raise ValueError()
    if constraints is not None and not isinstance(constraints, dict):
        raise ValueError()
    state_validate(self, rowid, targets, constraints)
    if inputs and not self._composite:
        raise ValueError()

def state_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None, accuracy=None):
    if not isinstance(targets, (list, tuple)):
        raise ValueError()
    if inputs is not None and not isinstance(inputs, dict):
        raise ValueError()
    state_validate(self, rowid, targets, constraints)
    if inputs and not self._composite:
        raise ValueError()

def state_logpdf_bulk(self, rowids, targets_list, constraints_list=None,
        inputs_list=None):
    n = len(rowids)
    if constraints_list is None:
        constraints_list = [{} for i in rowids]
    if inputs_list is None:
        inputs_list = [{} for i in rowids]
    if n != len(targets_list) or n != len(constraints_list) \\
            or n != len(inputs_list):
        raise ValueError()

def state_simulate_bulk(self, rowids, targets_list, constraints_list=None,
        inputs_list=None, Ns=None):
    n = len(rowids)
    if constraints_list is None:
        constraints_list = [{} for i in rowids]
    if inputs_list is None:
        inputs_list = [{} for i in rowids]
    if Ns is None:
        Ns = [1 for i in rowids]
    if n != len(targets_list) or n != len(constraints_list) \\
            or n != len(inputs_list) or n != len(Ns):
        raise ValueError()

def state_incorporate(self, rowid, observation, inputs=None):
    if rowid != self.n_rows() or inputs:
        raise ValueError()
    clusters = [self.views[v].outputs[0] for v in self.views]
    for q in observation:
        if q not in self.outputs and q not in clusters:
            raise ValueError()
    for q in observation:
        if isnan(observation[q]):
            raise ValueError()

def state_unincorporate(self, rowid):
    if rowid != self.n_rows() - 1 or self.n_rows() == 1:
        raise ValueError()

def state_force(self, rowid, observation):
    if rowid < 0 or rowid >= self.n_rows():
        raise ValueError()
    for c in observation:
        if not np.isnan(self.X[c][rowid]):
            raise ValueError()

def state_incorporate_dim(self, T, outputs, inputs=None, cctype=None,
        distargs=None, v=None):
    if len(T) != self.n_rows() or len(outputs) != 1 \\
            or outputs[0] in self.outputs or inputs:
        raise ValueError()

def state_unincorporate_dim(self, col):
    if self.n_cols() == 1 or col not in self.outputs:
        raise ValueError()

def state_update_cctype(self, col, cctype, distargs=None):
    if col not in self.outputs:
        raise ValueError()

def state_relevance(self, rowid_target, rowid_query, col):
    if col not in self.outputs:
        raise ValueError()

def state_foreign(self, N=None, S=None, cols=None, progress=None):
    pass

# -- Regressions -------------------------------------------------------------

def reg_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.data.x or rowid in self.data.Y:
        raise ValueError()
    if self.outputs[0] not in observation:
        raise ValueError()
    self.preprocess(observation, inputs)

def forest_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.data.x or rowid in self.data.Y:
        raise ValueError()
    self.preprocess(observation, inputs)

def reg_unincorporate_in(self, rowid):
    if rowid not in self.data.x:
        raise ValueError()

def reg_unincorporate_any(self, rowid):
    if rowid not in self.data.x or rowid not in self.data.Y:
        raise ValueError()

def reg_unincorporate(self, rowid):
    try:
        del self.data.x[rowid]
        del self.data.Y[rowid]
    except KeyError:
        raise ValueError()

def reg_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if rowid in self.data.x or constraints:
        raise ValueError()
    self.preprocess(targets, inputs)

def forest_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if rowid in self.data.x or constraints:
        raise ValueError()
    if targets.keys() != self.outputs:
        raise ValueError()
    forest_check(self, targets, inputs)

def forest_check(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    x = targets.get(self.outputs[0], None)
    if x is None or np.isnan(x):
        raise ValueError()
    if not set(self.inputs).issubset(set(inputs.keys())):
        raise ValueError()
    y = [inputs[c] for c in sorted(inputs)]
    for v in y:
        if np.isnan(v):
            raise ValueError()
    if len(y) != self.p:
        raise ValueError()

def reg_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if targets != self.outputs or constraints:
        raise ValueError()
    if rowid not in self.data.x:
        self.preprocess(None, inputs)

def forest_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if targets != self.outputs or constraints:
        raise ValueError()

def linreg_preprocess(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    if targets:
        x = targets.get(self.outputs[0], 'missing')
        if x == 'missing':
            raise ValueError()
        if x is None or np.isnan(x):
            raise ValueError()
    if set(inputs.keys()) != set(self.inputs):
        raise ValueError()
    y = du.dummy_code([inputs.get(i) for i in self.inputs],
        self.inputs_discrete)
    if len(y) != self.p - 1:
        raise ValueError()

def ols_preprocess(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    if targets:
        x = targets.get(self.outputs[0], None)
        if x is None or np.isnan(x):
            raise ValueError()
    if set(inputs.keys()) != set(self.inputs):
        raise ValueError()
    y = [inputs[c] for c in self.inputs]
    for v in y:
        if np.isnan(v):
            raise ValueError()
    if len(du.dummy_code(y, self.inputs_discrete)) != self.p - 1:
        raise ValueError()

def forest_preprocess(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    x = targets.get(self.outputs[0], None)
    if x is None or np.isnan(x):
        raise ValueError()
    if not set(self.inputs).issubset(set(inputs.keys())):
        raise ValueError()
    y = [inputs[c] for c in sorted(inputs)]
    for v in y:
        if np.isnan(v):
            raise ValueError()
    if len(y) != self.p:
        raise ValueError()
    if x % 1 != 0 or x < 0 or x >= self.k:
        raise ValueError()

def reg_init(self, outputs, inputs, hypers=None, params=None, distargs=None,
        rng=None):
    if len(outputs) != 1 or len(inputs) < 1 or outputs[0] in inputs \\
            or len(distargs['inputs']['stattypes']) != len(inputs):
        raise ValueError()

def forest_init(self, outputs, inputs, k=None, hypers=None, params=None,
        distargs=None, rng=None):
    if len(outputs) != 1 or len(inputs) < 1 or outputs[0] in inputs \\
            or len(distargs['inputs']['stattypes']) != len(inputs):
        raise ValueError()

# -- Venture programs --------------------------------------------------------

def vs_matched(self, rowid, inputs):
    if rowid in self.obs and 'inputs' in self.obs[rowid] \\
            and inputs != self.obs[rowid]['inputs']:
        raise ValueError()

def vs_incorporate(self, rowid, observation, inputs=None):
    inputs = inputs or {}
    if not observation:
        raise ValueError()
    if rowid not in self.obs and set(inputs) != set(self.inputs):
        raise ValueError()
    if not set(observation) <= set(self.outputs):
        raise ValueError()
    for i in inputs:
        if math.isnan(inputs[i]):
            raise ValueError()
    for q in observation:
        if math.isnan(observation[q]):
            raise ValueError()
    if rowid in self.obs:
        for q in observation:
            if q in self.obs[rowid]['labels']:
                raise ValueError()
        if inputs:
            vs_matched(self, rowid, inputs)

def vs_simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
    constraints = constraints or {}
    inputs = inputs or {}
    if rowid not in self.obs and set(inputs) != set(self.inputs):
        raise ValueError()
    for i in inputs:
        if math.isnan(inputs[i]) or i not in self.inputs:
            raise ValueError()
    for i in constraints:
        if math.isnan(constraints[i]) or i not in self.outputs:
            raise ValueError()
    for i in targets:
        if i not in self.outputs:
            raise ValueError()
    if set(targets) & set(constraints):
        raise ValueError()
    if rowid in self.obs:
        for q in constraints:
            if q in self.obs[rowid]['labels']:
                raise ValueError()
        if inputs:
            vs_matched(self, rowid, inputs)
        else:
            inputs = self.obs[rowid]['inputs']
    if set(inputs) != set(self.inputs):
        raise ValueError()

def vs_validate_simulate(self, rowid, targets, constraints, inputs):
    vs_simulate(self, rowid, targets, constraints, inputs)

def vs_unincorporate(self, rowid):
    if rowid not in self.obs:
        raise ValueError()
    for q in self.outputs:
        self._forget_cell(rowid, q)
    if len(self.obs[rowid]['labels']) != 0:
        raise ValueError()

def inline_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if inputs is None:
        inputs = {}
    if set(inputs.keys()) != set(self.inputs) \\
            or targets.keys() != self.outputs or constraints:
        raise ValueError()

def inline_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if inputs is None:
        inputs = {}
    if set(inputs.keys()) != set(self.inputs) \\
            or targets != self.outputs or constraints:
        raise ValueError()

# -- Synthetic models --------------------------------------------------------

def one_two(self, outputs, inputs, distargs=None, rng=None):
    if len(outputs) != 1 or len(inputs) != 2:
        raise ValueError()

def one_one(self, outputs, inputs, distargs=None, rng=None):
    if len(outputs) != 1 or len(inputs) != 1:
        raise ValueError()

def two_one(self, outputs, inputs, sigma=None, flip=None, distargs=None,
        rng=None):
    if len(outputs) != 2 or len(inputs) != 1:
        raise ValueError()

def troll_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.rowids:
        raise ValueError()

def troll_unincorporate(self, rowid):
    if rowid not in self.rowids:
        raise ValueError()

def never(self, *args):
    pass

# -- Multivariate models -----------------------------------------------------

def many_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.data or inputs or not observation:
        raise ValueError()
    for q in observation:
        if q not in self.outputs:
            raise ValueError()

def many_unincorporate(self, rowid):
    if rowid not in self.data:
        raise ValueError()

def many_unincorporate_try(self, rowid):
    try:
        del self.data[rowid]
    except KeyError:
        raise ValueError()

def many_targets(self, rowid, targets, constraints, inputs):
    if inputs or not targets:
        raise ValueError()
    for q in targets:
        if q not in self.outputs or q in constraints:
            raise ValueError()

def many_types(outputs, inputs, distargs):
    if inputs or len(set(outputs)) != len(outputs):
        raise ValueError()
    if not distargs or 'outputs' not in distargs:
        raise ValueError()
    if 'stattypes' not in distargs['outputs'] \\
            or 'statargs' not in distargs['outputs']:
        raise ValueError()
    if len(distargs['outputs']['stattypes']) != len(outputs) \\
            or len(distargs['outputs']['statargs']) != len(outputs):
        raise ValueError()
    for i in xrange(len(outputs)):
        if distargs['outputs']['stattypes'][i] != 'numerical' and \\
                'k' not in distargs['outputs']['statargs'][i]:
            raise ValueError()

def knn_init(self, outputs, inputs, K=None, M=None, distargs=None,
        params=None, rng=None):
    many_types(outputs, inputs, distargs)
    if len(outputs) < 2 or K is None or K < 1:
        raise ValueError()

def kde_init(self, outputs, inputs, distargs=None, params=None, rng=None):
    many_types(outputs, inputs, distargs)
    if len(outputs) < 1:
        raise ValueError()

def factor_init(self, outputs, inputs, L=None, distargs=None, params=None,
        rng=None):
    if distargs is None:
        distargs = {}
    if inputs or len(outputs) < 2 or len(set(outputs)) != len(outputs):
        raise ValueError()
    if L is None or L == 0:
        raise ValueError()
    if 'outputs' in distargs:
        for s in distargs['outputs']['stattypes']:
            if s != 'numerical':
                raise ValueError()
    if len(outputs[:-L]) < L:
        raise ValueError()

def knn_common(self, targets, constraints):
    if self.N < self.K or not targets:
        raise ValueError()
    for q in targets:
        if q not in self.outputs or q in constraints:
            raise ValueError()
    for e in constraints:
        if e not in self.outputs or np.isnan(constraints[e]):
            raise ValueError()
    if isinstance(targets, dict):
        for q in targets:
            if np.isnan(targets[q]):
                raise ValueError()

def knn_logpdf(self, rowid, targets, constraints=None, inputs=None):
    constraints = self.populate_constraints(rowid, targets, constraints)
    if inputs or not constraints:
        raise ValueError()
    knn_common(self, targets, constraints)

def knn_simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
    constraints = self.populate_constraints(rowid, targets, constraints)
    if inputs or N is not None and N <= 0:
        raise ValueError()
    knn_common(self, targets, constraints)

def kde_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if self.N == 0:
        raise ValueError()
    constraints = self.populate_constraints(rowid, targets, constraints)
    many_targets(self, rowid, targets, constraints, inputs)
    for q in targets:
        if np.isnan(targets[q]):
            raise ValueError()

def kde_simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
    if self.N == 0:
        raise ValueError()
    many_targets(self, rowid, targets, constraints or {}, inputs)

def factor_query(self, rowid, targets, constraints=None, inputs=None, N=None):
    constraints = self.populate_constraints(rowid, targets, constraints)
    many_targets(self, rowid, targets, constraints, inputs)

def factor_incorporate(self, rowid, observation, inputs=None):
    many_incorporate(self, rowid, observation, inputs)
    for q in observation:
        if q in self.latents:
            raise ValueError()

# -- Synthetic models --------------------------------------------------------

def uniform_init(self, outputs=None, inputs=None, low=0, high=1, rng=None):
    if inputs:
        raise ValueError()

def uniform_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if constraints or targets != self.outputs:
        raise ValueError()

def uniform_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if constraints or inputs or targets.keys() != self.outputs:
        raise ValueError()

def curve_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if constraints or targets != self.outputs \\
            or inputs.keys() != self.inputs:
        raise ValueError()

def curve_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if constraints or targets.keys() != self.outputs \\
            or inputs.keys() != self.inputs:
        raise ValueError()

def diamond_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if targets != self.outputs or inputs.keys() != self.inputs:
        raise ValueError()

def joint_query(self, rowid, targets, constraints=None, inputs=None, N=None):
    if inputs:
        raise ValueError()
    if constraints:
        if len(constraints) != 1 or len(targets) != 1:
            raise ValueError()

def joint_query_chain(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if inputs or constraints and not (
            len(constraints) == len(targets) == 1):
        raise ValueError()

def network_query(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if self.network is None:
        raise ValueError()

def directed_init(self, outputs=None, inputs=None, noise=None, acc=1,
        rng=None):
    if type(self) is DirectedXyGpm:
        raise ValueError()

'''


DISTS = ('bernoulli.Bernoulli', 'beta.Beta', 'categorical.Categorical',
    'crp.Crp', 'exponential.Exponential', 'geometric.Geometric',
    'lognormal.Lognormal', 'normal.Normal', 'normal_trunc.NormalTrunc',
    'poisson.Poisson', 'vonmises.Vonmises')

TABLE = [
    ('mixtures.dim.Dim', {
        '__init__': 'dim_init', 'preprocess': 'dim_preprocess',
        'incorporate': 'dim_incorporate', 'unincorporate': 'dim_unincorporate',
        'logpdf': 'dim_query', 'simulate': 'dim_simulate'}),
    ('mixtures.view.View', {
        '_validate_cgpm_query': 'view_validate', 'logpdf': 'view_query',
        'simulate': 'view_query', 'incorporate': 'never',
        'unincorporate': 'never', 'force_cell': 'never'}),
    ('crosscat.state.State', {
        '_validate_cgpm_query': 'state_validate', 'logpdf': 'state_logpdf',
        'simulate': 'state_simulate', 'logpdf_bulk': 'state_logpdf_bulk',
        'simulate_bulk': 'state_simulate_bulk',
        'incorporate': 'state_incorporate',
        'unincorporate': 'state_unincorporate', 'force_cell': 'state_force',
        'incorporate_dim': 'state_incorporate_dim',
        'unincorporate_dim': 'state_unincorporate_dim',
        'update_cctype': 'state_update_cctype',
        'relevance_probability': 'state_relevance'}),
    ('regressions.linreg.LinearRegression', {
        '__init__': 'reg_init', 'preprocess': 'linreg_preprocess',
        'incorporate': 'reg_incorporate', 'unincorporate': ['reg_unincorporate',
            'reg_unincorporate_in', 'reg_unincorporate_any'],
        'logpdf': 'reg_logpdf', 'simulate': 'reg_simulate'}),
    ('regressions.ols.OrdinaryLeastSquares', {
        '__init__': 'reg_init', 'preprocess': 'ols_preprocess',
        'incorporate': 'reg_incorporate', 'unincorporate': ['reg_unincorporate',
            'reg_unincorporate_in', 'reg_unincorporate_any'],
        'logpdf': 'reg_logpdf', 'simulate': 'reg_simulate'}),
    ('regressions.forest.RandomForest', {
        '__init__': 'forest_init', 'preprocess': 'forest_preprocess',
        'incorporate': 'forest_incorporate',
        'unincorporate': ['reg_unincorporate',
            'reg_unincorporate_in', 'reg_unincorporate_any'], 'logpdf': 'forest_logpdf',
        'simulate': 'forest_simulate'}),
    ('venturescript.vscgpm.VsCGpm', {
        'incorporate': 'vs_incorporate', 'unincorporate': 'vs_unincorporate',
        'simulate': 'vs_simulate', 'logpdf': 'never'}),
    ('venturescript.vsinline.InlineVsCGpm', {
        'incorporate': 'never', 'unincorporate': 'never',
        'logpdf': 'inline_logpdf', 'simulate': 'inline_simulate'}),
    ('dummy.fourway.FourWay', {'__init__': 'one_two', 'incorporate': 'never',
        'unincorporate': 'never'}),
    ('dummy.twoway.TwoWay', {'__init__': 'one_one', 'incorporate': 'never',
        'unincorporate': 'never'}),
    ('dummy.piecewise.PieceWise', {'__init__': 'two_one',
        'incorporate': 'never', 'unincorporate': 'never'}),
    ('dummy.trollnormal.TrollNormal', {'__init__': 'one_two',
        'incorporate': 'troll_incorporate',
        'unincorporate': 'troll_unincorporate', 'logpdf': 'never',
        'simulate': 'never'}),
]

MANY = [
    ('knn.mvknn.MultivariateKnn', {
        '__init__': 'knn_init', 'incorporate': 'many_incorporate',
        'unincorporate': ['many_unincorporate', 'many_unincorporate_try'],
        'logpdf': 'knn_logpdf',
        'simulate': 'knn_simulate'}),
    ('kde.mvkde.MultivariateKde', {
        '__init__': 'kde_init', 'incorporate': 'many_incorporate',
        'unincorporate': ['many_unincorporate', 'many_unincorporate_try'],
        'logpdf': 'kde_logpdf',
        'simulate': 'kde_simulate'}),
    ('factor.factor.FactorAnalysis', {
        '__init__': 'factor_init', 'incorporate': 'factor_incorporate',
        'unincorporate': ['many_unincorporate', 'many_unincorporate_try'],
        'logpdf': 'factor_query',
        'simulate': 'factor_query'}),
]
PLAIN = [
    ('uncorrelated.uniformx.UniformX', {'__init__': 'uniform_init',
        'simulate': 'uniform_simulate', 'logpdf': 'uniform_logpdf'}),
    ('uncorrelated.sin.SinY', {'__init__': 'never',
        'simulate': 'curve_simulate', 'logpdf': 'curve_logpdf'}),
    ('uncorrelated.parabola.ParabolaY', {'__init__': 'never',
        'simulate': 'curve_simulate', 'logpdf': 'curve_logpdf'}),
    ('uncorrelated.diamond.DiamondY', {'__init__': 'never',
        'simulate': 'diamond_simulate'}),
    ('uncorrelated.undirected.UnDirectedXyGpm', {'__init__': 'never',
        'simulate': ['joint_query', 'joint_query_chain'],
        'logpdf': ['joint_query', 'joint_query_chain']}),
    ('uncorrelated.directed.DirectedXyGpm', {
        'simulate': 'network_query', 'logpdf': 'network_query'}),
]
INSIDE = ('populate_constraints', '_dataset', '_stattypes', '_bw',
    '_simulate_member', '_find_neighborhoods', '_create_local_model_joint',
    '_simulate_fallback', 'reindex', 'mvn_condition', 'joint_parameters',
    '_default_bw')
JOINT = ('simulate_joint', 'simulate_conditional', 'logpdf_joint',
    'logpdf_marginal', 'logpdf_conditional')


def computed(e):
    """An assertion about a result of the operation, not about the request."""
    return e.kind == 'assert' and any(x.op == 'call' and (
        x.a[0].op in ('attr', 'unbound', 'func') or last(x.a[0]) in INSIDE or
        x.a[0].op == 'glob' and '.' in str(x.a[0].a[0]) and
        last(x.a[0]) != 'isnan') for x in subterms(e.value))


def values_only(t):
    """Does the condition depend on the request through observed values
    alone?"""
    return any(x.op == 'item' and x.a[0].op == 'param' or x.op == 'attr' and
        x.a[1] == 'rng' for x in subterms(t))


def run(ctx):
    ref = Ref(ctx, REF, 'reject')
    R = ctx.rule('requests-rejected-iff-malformed',
        'the condition under which an operation raises or fails an assertion '
        'of its own equals the reference condition, on every path')
    A = ctx.rule('rejects-before-changing',
        'no path changes the model and then turns the request down')

    def one(q, m, r, upto=None, stop=()):
        cls = ctx.ix.cls('cgpm.' + q)
        f = cls.lookup(m)
        name = '%s.%s' % (cls.name, m)
        if f is None:
            ctx.violation(R, name, 'operation not found', cls.where())
            return
        E = Effects(ctx, own(*stop), rewrite=rows)
        E2 = Effects(ctx, own(*stop), rewrite=rows)
        s = E.summ(f, cls)
        if stop is INSIDE:
            s.events[:] = [e for e in s.events if not computed(e)]
        got = refuse(E, s, {'RuntimeError'})
        for v in (r if isinstance(r, list) else [r]):
            want = refuse(E2, E2.summ(ref.fn(v), cls))
            mine = upto(got, want) if upto is not None else got
            ok = mine is want or equal(mine, want)
            if ok:
                break
        if ok:
            ctx.ok(R, name)
        else:
            x, y = differ(mine, want)
            ctx.violation(R, name, 'turned down when %s, expected %s' % (
                brief(x), brief(y)), f.where())
        if m != '__init__':
            late(ctx, A, name, f, s)

    for q in DISTS:
        q = 'primitives.' + q
        one(q, 'incorporate', 'dist_incorporate', upto=apart)
        one(q, 'logpdf', 'crp_logpdf' if q.endswith('Crp') else 'dist_logpdf',
            upto=apart)
        one(q, 'simulate', 'dist_simulate', upto=apart)
        one(q, '__init__', 'dist_init', upto=apart)
    for q, ops in TABLE:
        for m, r in sorted(ops.items()):
            one(q, m, r)
    for q, ops in MANY:
        for m, r in sorted(ops.items()):
            one(q, m, r, stop=INSIDE)
    for q, ops in PLAIN:
        for m, r in sorted(ops.items()):
            one(q, m, r, upto=apart if m == 'simulate' else None,
                stop=JOINT)


def apart(mine, want):
    """`want` if `mine` is it, or-ed with conditions on values only."""
    rest = booltree(and_(mine, not_(want)))
    if booltree(and_(want, not_(mine))) is FALSE and (rest is FALSE
            or values_only(rest)):
        return want
    return mine


def late(ctx, rule, name, f, s):
    done = []
    for e in s.events:
        if e.kind in ('raise', 'assert') and not caught(e):
            g = and_(*(tuple(e.guard) + ((not_(e.value),)
                if e.kind == 'assert' else ())))
            if any(x.op == 'exc' for x in subterms(g)):
                continue
            for w in done:
                if booltree(and_(g, *w.guard)) is not FALSE:
                    ctx.violation(rule, name, 'turned down after %s has '
                        'changed' % show(w.loc, limit=60),
                        f.where())
                    return
        elif e.kind == 'write' and rooted(e.loc):
            done.append(e)
    ctx.ok(rule, name)


def rooted(t):
    while t.op in ('attr', 'item', 'idx', 'elem', 'mut', 'slice'):
        t = t.a[0]
    return t is SELF
