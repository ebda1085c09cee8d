"""C30: regressions, kernel densities, neighbours and factor models."""
from effects import *       # noqa
from rules.mixture import Kit, rows

TEXT = '''
import numpy as np
import sklearn.decomposition
import sklearn.linear_model
from sklearn.ensemble import RandomForestClassifier
from collections import OrderedDict
from math import log, pi, sqrt
from numpy.linalg import det, inv
from scipy.special import gammaln
from scipy.stats import norm
from sklearn.neighbors import KDTree
from statsmodels.nonparametric import _kernel_base, kernel_density
from cgpm.regressions import forest, linreg, ols
from cgpm.regressions.linreg import LinearRegression
from cgpm.regressions.forest import RandomForest
from cgpm.factor.factor import FactorAnalysis
from cgpm.knn.mvknn import LocalGpm
from cgpm.utils import mvnormal
from cgpm.utils.config import cctype_class
from cgpm.utils.data import dummy_code
from cgpm.utils.general import gen_rng, log_pflip, logsumexp, merged, pflip

# Training data of the supervised models.

def pair_incorporate(self, rowid, observation, inputs=None):
    assert rowid not in self.data.x
    assert rowid not in self.data.Y
    if self.outputs[0] not in observation:
        raise ValueError()
    x, y = self.preprocess(observation, inputs)
    self.N += 1
    self.data.x[rowid] = x
    self.data.Y[rowid] = y

def forest_incorporate(self, rowid, observation, inputs=None):
    assert rowid not in self.data.x
    assert rowid not in self.data.Y
    x, y = self.preprocess(observation, inputs)
    self.N += 1
    self.counts[x] += 1
    self.data.x[rowid] = x
    self.data.Y[rowid] = y

def forest_init(self, outputs, inputs, k=None, hypers=None, params=None,
        distargs=None, rng=None):
    self.rng = gen_rng() if rng is None else rng
    self.outputs = outputs
    self.inputs = inputs
    assert len(self.outputs) == 1
    assert len(self.inputs) >= 1
    assert self.outputs[0] not in self.inputs
    assert len(distargs['inputs']['stattypes']) == len(self.inputs)
    self.stattypes = distargs['inputs']['stattypes']
    self.k = k if k is not None else int(distargs['k'])
    self.p = len(distargs['inputs']['stattypes'])
    self.N = 0
    self.data = forest.Data(x=OrderedDict(), Y=OrderedDict())
    self.counts = [0] * self.k
    if params is None:
        params = {}
    self.alpha = params.get('alpha', .1)
    self.regressor = params.get('forest', None)
    if self.regressor is None:
        self.regressor = RandomForestClassifier(random_state=self.rng)

def forest_init_b(self, outputs, inputs, k=None, hypers=None, params=None,
        distargs=None, rng=None):
    self.rng = gen_rng() if rng is None else rng
    self.outputs = outputs
    self.inputs = inputs
    self.rng = gen_rng() if rng is None else rng
    assert len(self.outputs) == 1
    assert len(self.inputs) >= 1
    assert self.outputs[0] not in self.inputs
    assert len(distargs['inputs']['stattypes']) == len(self.inputs)
    self.stattypes = distargs['inputs']['stattypes']
    self.k = k if k is not None else int(distargs['k'])
    self.p = len(distargs['inputs']['stattypes'])
    self.N = 0
    self.data = forest.Data(x=OrderedDict(), Y=OrderedDict())
    self.counts = [0] * self.k
    if params is None:
        params = {}
    self.alpha = params.get('alpha', .1)
    self.regressor = params.get('forest', None)
    if self.regressor is None:
        self.regressor = RandomForestClassifier(random_state=self.rng)

def ols_init(self, outputs, inputs, hypers=None, params=None, distargs=None,
        rng=None):
    if params is None:
        params = {}
    self.outputs = outputs
    self.inputs = inputs
    self.rng = gen_rng() if rng is None else rng
    assert len(self.outputs) == 1
    assert len(self.inputs) >= 1
    assert self.outputs[0] not in self.inputs
    assert len(distargs['inputs']['stattypes']) == len(self.inputs)
    self.input_cctypes = distargs['inputs']['stattypes']
    self.input_ccargs = distargs['inputs']['statargs']
    p, counts = zip(*[self._predictor_count(t, a)
        for t, a in zip(self.input_cctypes, self.input_ccargs)])
    self.p = sum(p) + 1
    self.inputs_discrete = {i: c for i, c in enumerate(counts) if c}
    self.N = 0
    self.data = ols.Data(x=OrderedDict(), Y=OrderedDict())
    self.noise = params.get('noise', 1)
    self.regressor = params.get('regressor', None)
    if self.regressor is None:
        self.regressor = sklearn.linear_model.LinearRegression()

def linreg_init(self, outputs, inputs, hypers=None, params=None,
        distargs=None, rng=None):
    self.outputs = outputs
    self.inputs = inputs
    self.rng = gen_rng() if rng is None else rng
    assert len(self.outputs) == 1
    assert len(self.inputs) >= 1
    assert self.outputs[0] not in self.inputs
    assert len(distargs['inputs']['stattypes']) == len(self.inputs)
    self.input_cctypes = distargs['inputs']['stattypes']
    self.input_ccargs = distargs['inputs']['statargs']
    p, counts = zip(*[self._predictor_count(t, a)
        for t, a in zip(self.input_cctypes, self.input_ccargs)])
    self.p = sum(p) + 1
    self.inputs_discrete = {i: c for i, c in enumerate(counts) if c}
    self.N = 0
    self.data = linreg.Data(x=OrderedDict(), Y=OrderedDict())
    if hypers is None:
        hypers = {}
    self.a = hypers.get('a', 1.)
    self.b = hypers.get('b', 1.)
    self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
    self.V = np.asarray(hypers.get('V', np.eye(self.p)))

def linreg_init_b(self, outputs, inputs, hypers=None, params=None,
        distargs=None, rng=None):
    self.outputs = outputs
    self.inputs = inputs
    self.rng = gen_rng() if rng is None else rng
    assert len(self.outputs) == 1
    assert len(self.inputs) >= 1
    assert self.outputs[0] not in self.inputs
    assert len(distargs['inputs']['stattypes']) == len(self.inputs)
    self.input_cctypes = distargs['inputs']['stattypes']
    self.input_ccargs = distargs['inputs']['statargs']
    p, counts = zip(*[self._predictor_count(t, a)
        for t, a in zip(self.input_cctypes, self.input_ccargs)])
    self.p = sum(p) + 1
    self.inputs_discrete = {i: c for i, c in enumerate(counts) if c}
    self.lookup_numerical_index = self.input_to_code_index()
    self.N = 0
    self.data = linreg.Data(x=OrderedDict(), Y=OrderedDict())
    if hypers is None:
        hypers = {}
    self.a = hypers.get('a', 1.)
    self.b = hypers.get('b', 1.)
    self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
    self.V = np.asarray(hypers.get('V', np.eye(self.p)))

# Random forest.

def forest_logp(x, y, regressor, counts, alpha):
    outlier = -np.log(len(counts))
    if not hasattr(regressor, 'classes_'):
        return outlier
    if x not in regressor.classes_:
        return np.log(alpha) + outlier
    i = list(regressor.classes_).index(x)
    return logsumexp([
        np.log(alpha) + outlier,
        np.log(1 - alpha) + regressor.predict_log_proba([y])[0][i]])

def forest_likelihood(X, Y, regressor, counts, alpha):
    return sum(RandomForest.calc_predictive_logp(
        x, y, regressor, counts, alpha) for x, y in zip(X, Y))

def forest_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert not constraints
    assert targets.keys() == self.outputs
    assert rowid not in self.data.x
    try:
        x, y = self.preprocess(targets, inputs)
    except IndexError:
        return -float('inf')
    return RandomForest.calc_predictive_logp(
        x, y, self.regressor, self.counts, self.alpha)

def forest_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert not constraints
    if rowid in self.data.x:
        return {self.outputs[0]: self.data.x[rowid]}
    lp = [self.logpdf(rowid, {targets[0]: x}, None, inputs)
        for x in range(self.k)]
    return {self.outputs[0]: log_pflip(lp, rng=self.rng)}

def forest_simulate_own(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert not constraints
    if rowid in self.data.x:
        return {self.outputs[0]: self.data.x[rowid]}
    lp = [self.logpdf(rowid, {self.outputs[0]: x}, None, inputs)
        for x in range(self.k)]
    return {self.outputs[0]: log_pflip(lp, rng=self.rng)}

def forest_score(self):
    return RandomForest.calc_log_likelihood(self.data.x.values(),
        self.data.Y.values(), self.regressor, self.counts, self.alpha)

def forest_transition(self, N=None):
    for i in range(N if N is not None else 1):
        grid = np.linspace(0.01, 0.99, 30)
        lp = [RandomForest.calc_log_likelihood(self.data.x.values(),
            self.data.Y.values(), self.regressor, self.counts, a)
            for a in grid]
        self.alpha = log_pflip(lp, array=grid, rng=self.rng)
        if len(self.data.Y) > 0:
            self.regressor.fit(self.data.Y.values(), self.data.x.values())

def forest_preprocess(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    x = targets.get(self.outputs[0], None)
    if x is None or np.isnan(x):
        raise ValueError()
    if not set.issubset(set(self.inputs), set(inputs.keys())):
        raise ValueError()
    y = [inputs[c] for c in sorted(inputs)]
    if any(np.isnan(v) for v in y):
        raise ValueError()
    if len(y) != self.p:
        raise ValueError()
    if not (x % 1 == 0 and 0 <= x < self.k):
        raise IndexError()
    return int(x), y

def forest_preprocess_own(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    x = targets.get(self.outputs[0], None)
    if x is None or np.isnan(x):
        raise ValueError()
    if not set.issubset(set(self.inputs), set(inputs.keys())):
        raise ValueError()
    y = [inputs[c] for c in self.inputs]
    if any(np.isnan(v) for v in y):
        raise ValueError()
    if len(inputs) != self.p:
        raise ValueError()
    if not (x % 1 == 0 and 0 <= x < self.k):
        raise IndexError()
    return int(x), y

# Ordinary least squares.

def ols_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert rowid not in self.data.x
    assert not constraints
    x, y = self.preprocess(targets, inputs)
    m = self.regressor.predict([y])[0]
    return -.5*log(2*pi) - log(self.noise) - .5*((x - m)/self.noise)**2

def ols_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert not constraints
    if rowid in self.data.x:
        return {self.outputs[0]: self.data.x[rowid]}
    _x, y = self.preprocess(None, inputs)
    return {self.outputs[0]: self.regressor.predict([y])[0]}

def ols_transition(self, N=None):
    if len(self.data.Y) > 0:
        self.regressor.fit(self.data.Y.values(), self.data.x.values())
        fitted = self.regressor.predict(self.data.Y.values())
        self.noise = np.linalg.norm(self.data.x.values() - fitted) \\
            / np.sqrt(self.N)

def ols_preprocess(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    if targets:
        x = targets.get(self.outputs[0], None)
        if x is None or np.isnan(x):
            raise ValueError()
    else:
        x = None
    if set(inputs.keys()) != set(self.inputs):
        raise ValueError()
    y = [inputs[c] for c in self.inputs]
    if any(np.isnan(v) for v in y):
        raise ValueError()
    y = dummy_code(y, self.inputs_discrete)
    assert len(y) == self.p - 1
    return x, y

def ols_count(cct, cca):
    if cct == 'numerical' or cctype_class(cct).is_numeric():
        p, counts = 1, None
    elif cca is not None and 'k' in cca:
        p, counts = cca['k'] - 1, int(cca['k'])
    else:
        raise ValueError()
    return int(p), counts

# Bayesian linear regression.

def linreg_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert rowid not in self.data.x
    assert not constraints
    x, y = self.preprocess(targets, inputs)
    return LinearRegression.calc_predictive_logp(x, y, self.N,
        self.data.Y.values(), self.data.x.values(), self.a, self.b, self.mu,
        self.V)

def linreg_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert not constraints
    if rowid in self.data.x:
        return {self.outputs[0]: self.data.x[rowid]}
    _x, y = self.preprocess(None, inputs)
    sigma2, b = self.simulate_params()
    return {self.outputs[0]:
        self.rng.normal(np.dot(y, b), np.sqrt(sigma2))}

def linreg_params(self):
    an, bn, mun, Vn_inv = LinearRegression.posterior_hypers(self.N,
        self.data.Y.values(), self.data.x.values(), self.a, self.b, self.mu,
        self.V)
    return LinearRegression.sample_parameters(an, bn, mun, inv(Vn_inv),
        self.rng)

def linreg_score(self):
    return LinearRegression.calc_logpdf_marginal(self.N,
        self.data.Y.values(), self.data.x.values(), self.a, self.b, self.mu,
        self.V)

def linreg_preprocess(self, targets, inputs):
    if self.outputs[0] in inputs:
        raise ValueError()
    if targets:
        x = targets.get(self.outputs[0], 'missing')
        if x == 'missing':
            raise ValueError()
        elif x is None or np.isnan(x):
            raise ValueError()
    else:
        x = None
    if set(inputs.keys()) != set(self.inputs):
        raise ValueError()
    y = [inputs.get(i) for i in self.inputs]
    y = dummy_code(y, self.inputs_discrete)
    assert len(y) == self.p - 1
    return x, [1] + y

def linreg_count(cct, cca):
    if cct == 'numerical' or cctype_class(cct).is_numeric():
        p, counts = 1, None
    elif cca is not None and 'k' in cca:
        p, counts = cca['k'], int(cca['k']) + 1
    else:
        raise ValueError()
    return int(p), counts

def linreg_predictive(xs, ys, N, Y, x, a, b, mu, V):
    an, bn, _m, Vn = LinearRegression.posterior_hypers(N, Y, x, a, b, mu, V)
    am, bm, _m, Vm = LinearRegression.posterior_hypers(N + 1, Y + [ys],
        x + [xs], a, b, mu, V)
    return -.5*log(2*pi) + LinearRegression.calc_log_Z(am, bm, Vm) \\
        - LinearRegression.calc_log_Z(an, bn, Vn)

def linreg_marginal(N, Y, x, a, b, mu, V):
    an, bn, _m, Vn = LinearRegression.posterior_hypers(N, Y, x, a, b, mu, V)
    return -.5*N*log(2*pi) + LinearRegression.calc_log_Z(an, bn, Vn) \\
        - LinearRegression.calc_log_Z(a, b, inv(V))

def linreg_posterior(N, Y, x, a, b, mu, V):
    if N == 0:
        assert len(x) == len(Y) == 0
        return a, b, mu, inv(V)
    X, y = np.asarray(Y), np.asarray(x)
    assert X.shape == (N, len(mu))
    assert y.shape == (N,)
    P = inv(V)
    Pn = P + np.dot(np.transpose(X), X)
    mun = np.dot(inv(Pn), np.dot(P, mu) + np.dot(np.transpose(X), y))
    return (a + N/2., b + .5 * (np.dot(mu, np.dot(P, mu)) + np.dot(x, x)
        - np.dot(mun, np.dot(Pn, mun))), mun, Pn)

def linreg_log_Z(a, b, V_inv):
    return gammaln(a) + log(sqrt(1./det(V_inv))) - a * np.log(b)

def linreg_log_Z_half(a, b, V_inv):
    return gammaln(a) - .5 * log(det(V_inv)) - a * np.log(b)

def linreg_sample(a, b, mu, V, rng):
    sigma2 = 1./rng.gamma(a, scale=1./b)
    return sigma2, rng.multivariate_normal(mu, sigma2 * V)

# Observed rows of the multivariate models.

def row_populate(self, rowid, targets, constraints):
    if constraints is None:
        constraints = {}
    if rowid in self.data:
        values = self.data[rowid]
        assert len(values) == len(self.outputs)
        constraints = merged(constraints, {
            c: v for c, v in zip(self.outputs, values)
            if not np.isnan(v) and c not in targets
            and c not in constraints})
    return constraints

def factor_populate(self, rowid, targets, constraints):
    if constraints is None:
        constraints = {}
    if rowid in self.data:
        values = self.data[rowid]
        assert len(values) == len(self.outputs[:self.D])
        constraints = merged(constraints, {
            c: v for c, v in zip(self.outputs[:self.D], values)
            if not np.isnan(v) and c not in targets
            and c not in constraints})
    return constraints

def kde_init(self, outputs, inputs, distargs=None, params=None, rng=None):
    if params is None:
        params = {}
    if rng is None:
        rng = gen_rng(1)
    if inputs:
        raise ValueError()
    if len(outputs) < 1:
        raise ValueError()
    if len(set(outputs)) != len(outputs):
        raise ValueError()
    if not distargs or 'outputs' not in distargs:
        raise ValueError()
    if 'stattypes' not in distargs['outputs'] \
            or 'statargs' not in distargs['outputs']:
        raise ValueError()
    if len(distargs['outputs']['stattypes']) != len(outputs):
        raise ValueError()
    if len(distargs['outputs']['statargs']) != len(outputs):
        raise ValueError()
    if any('k' not in distargs['outputs']['statargs'][i]
            for i in range(len(outputs))
            if distargs['outputs']['stattypes'][i] != 'numerical'):
        raise ValueError()
    self.rng = rng
    self.outputs = outputs
    self.inputs = []
    self.stattypes = distargs['outputs']['stattypes']
    self.statargs = distargs['outputs']['statargs']
    self.levels = {o: self.statargs[i]['k'] for i, o in enumerate(outputs)
        if self.stattypes[i] != 'numerical'}
    self.data = OrderedDict()
    self.N = 0
    self.bw = params.get('bw', [self._default_bw(o) for o in self.outputs])

def knn_init(self, outputs, inputs, K=None, M=None, distargs=None,
        params=None, rng=None):
    self._validate_init(outputs, inputs, K, M, distargs, params, rng)
    if rng is None:
        rng = gen_rng(1)
    if M is None:
        M = K
    self.rng = rng
    self.outputs = outputs
    self.inputs = []
    self.stattypes = distargs['outputs']['stattypes']
    self.statargs = distargs['outputs']['statargs']
    self.levels = {o: self.statargs[i]['k'] for i, o in enumerate(outputs)
        if self.stattypes[i] != 'numerical'}
    self.data = OrderedDict()
    self.N = 0
    self.ordering = list(self.rng.permutation(self.outputs))
    self.K = K
    self.M = M

def knn_validate_init(self, outputs, inputs, K, M, distargs, params, rng):
    if inputs:
        raise ValueError()
    if len(outputs) < 2:
        raise ValueError()
    if len(set(outputs)) != len(outputs):
        raise ValueError()
    if not distargs or 'outputs' not in distargs:
        raise ValueError()
    if K is None or K < 1:
        raise ValueError()
    if 'stattypes' not in distargs['outputs'] \
            or 'statargs' not in distargs['outputs']:
        raise ValueError()
    if len(distargs['outputs']['stattypes']) != len(outputs):
        raise ValueError()
    if len(distargs['outputs']['statargs']) != len(outputs):
        raise ValueError()
    if any('k' not in distargs['outputs']['statargs'][i]
            for i in range(len(outputs))
            if distargs['outputs']['stattypes'][i] != 'numerical'):
        raise ValueError()

def factor_init(self, outputs, inputs, L=None, distargs=None, params=None,
        rng=None):
    if params is None:
        params = {}
    if distargs is None:
        distargs = {}
    if rng is None:
        rng = gen_rng(1)
    if inputs:
        raise ValueError()
    if len(outputs) < 2:
        raise ValueError()
    if len(set(outputs)) != len(outputs):
        raise ValueError()
    if L is None:
        raise ValueError()
    if L == 0:
        raise ValueError()
    if 'outputs' in distargs and any(s != 'numerical'
            for s in distargs['outputs']['stattypes']):
        raise ValueError()
    D = len(outputs[:-L])
    if D < L:
        raise ValueError()
    self.rng = rng
    self.L = L
    self.D = D
    self.outputs = outputs
    self.observables = outputs[:-self.L]
    self.latents = set(outputs[-self.L:])
    self.inputs = []
    self.output_mapping = {c: i for i, c in enumerate(self.outputs)}
    self.data = OrderedDict()
    self.N = 0
    self.mux = np.asarray(params.get('mux', np.zeros(D)))
    self.Psi = np.asarray(params.get('Psi', np.eye(D)))
    self.W = np.asarray(params.get('W', np.zeros((D, L))))
    self.mu, self.cov = self.joint_parameters()
    self.fa = None

def kde_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.data:
        raise ValueError()
    if inputs:
        raise ValueError()
    if not observation:
        raise ValueError()
    if any(q not in self.outputs for q in observation):
        raise ValueError()
    self.data[rowid] = [observation.get(q, np.nan) for q in self.outputs]
    self.N += 1

def factor_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.data:
        raise ValueError()
    if inputs:
        raise ValueError()
    if not observation:
        raise ValueError()
    if any(q not in self.outputs for q in observation):
        raise ValueError()
    if any(q in self.latents for q in observation):
        raise ValueError()
    self.data[rowid] = [observation.get(q, np.nan) for q in self.observables]
    self.N += 1

def knn_incorporate(self, rowid, observation, inputs=None):
    self._validate_incorporate(rowid, observation, inputs)
    self.data[rowid] = [observation.get(q, np.nan) for q in self.outputs]
    self.N += 1

# Kernel density estimates.

def knn_validate_query(self, rowid, targets, constraints, N=None):
    if N is not None and N <= 0:
        raise ValueError()
    if self.N < self.K:
        raise ValueError()
    if not targets:
        raise ValueError()
    if any(q not in self.outputs for q in targets):
        raise ValueError()
    if any(e not in self.outputs for e in constraints):
        raise ValueError()
    if any(q in constraints for q in targets):
        raise ValueError()
    if any(np.isnan(v) for v in constraints.itervalues()):
        raise ValueError()
    if isinstance(targets, dict) \
            and any(np.isnan(v) for v in targets.itervalues()):
        raise ValueError()

def knn_validate_row(self, rowid, observation, inputs):
    if rowid in self.data:
        raise ValueError()
    if inputs:
        raise ValueError()
    if not observation:
        raise ValueError()
    if any(q not in self.outputs for q in observation):
        raise ValueError()

def complete_rows(self, outputs):
    X = np.asarray(self.data.values())[:,[self.outputs.index(q)
        for q in outputs]]
    return X[~np.any(np.isnan(X), axis=1)]

def kde_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if self.N == 0:
        raise ValueError()
    given = self.populate_constraints(rowid, targets, constraints)
    if inputs:
        raise ValueError()
    if not targets:
        raise ValueError()
    if any(np.isnan(v) for v in targets.values()):
        raise ValueError()
    if any(q not in self.outputs for q in targets):
        raise ValueError()
    if any(q in given for q in targets):
        raise ValueError()
    if given:
        data = self._dataset(targets.keys() + given.keys())
        n = len(targets)
        kde = kernel_density.KDEMultivariateConditional(
            data[:,:n], data[:,n:], self._stattypes(targets),
            self._stattypes(given),
            bw=np.concatenate((self._bw(targets), self._bw(given))))
        return np.log(kde.pdf(targets.values(), given.values()))
    kde = kernel_density.KDEMultivariate(self._dataset(targets),
        self._stattypes(targets), bw=self._bw(targets))
    return np.log(kde.pdf(targets.values()))

def kde_logpdf_b(self, rowid, targets, constraints=None, inputs=None):
    if self.N == 0:
        raise ValueError()
    given = self.populate_constraints(rowid, targets, constraints)
    if inputs:
        raise ValueError()
    if not targets:
        raise ValueError()
    if any(np.isnan(v) for v in targets.values()):
        raise ValueError()
    if any(q not in self.outputs for q in targets):
        raise ValueError()
    if any(q in given for q in targets):
        raise ValueError()
    if given:
        data = self._dataset(targets.keys() + given.keys())
        n = len(targets)
        kde = kernel_density.KDEMultivariateConditional(
            data[:,:n], data[:,n:], self._stattypes(targets),
            self._stattypes(given),
            bw=np.concatenate((self._bw(targets), self._bw(given))))
        pdf = kde.pdf(targets.values(), given.values())
    else:
        kde = kernel_density.KDEMultivariate(self._dataset(targets),
            self._stattypes(targets), bw=self._bw(targets))
        pdf = kde.pdf(targets.values())
    return np.log(pdf)

def kde_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if self.N == 0:
        raise ValueError()
    if inputs:
        raise ValueError()
    if not targets:
        raise ValueError()
    if any(q not in self.outputs for q in targets):
        raise ValueError()
    if constraints and any(q in constraints for q in targets):
        raise ValueError()
    given = self.populate_constraints(rowid, targets, constraints)
    if given:
        data = self._dataset(targets + given.keys())
        n = len(targets)
        weights = _kernel_base.gpke(self._bw(given), data[:,n:],
            given.values(), self._stattypes(given), tosum=False)
        rows = data[:,:n]
    else:
        rows = self._dataset(targets)
        weights = [1] * len(rows)
    assert len(weights) == len(rows)
    i = pflip(weights, size=N, rng=self.rng)
    if N is None:
        return self._simulate_member(rows[i], targets)
    return [self._simulate_member(rows[j], targets) for j in i]

def kde_member(self, row, targets):
    assert len(row) == len(targets)
    kernels = {
        'c': self._simulate_gaussian_kernel,
        'u': self._simulate_aitchison_aitken_kernel
    }
    return {q: kernels[s](q, v)
        for s, q, v in zip(self._stattypes(targets), targets, row)}

def kde_member_b(self, row, targets):
    assert len(row) == len(targets)
    kernels = {
        'c': self._simulate_gaussian_kernel,
        'u': self._simulate_aitchison_aitken_kernel
    }
    fs = [kernels[s] for s in self._stattypes(targets)]
    return {q: f(q, v) for f, q, v in zip(fs, targets, row)}

def kde_normal(self, q, Xi):
    i = self.outputs.index(q)
    assert self.stattypes[i] == 'numerical'
    return self.rng.normal(loc=Xi, scale=self.bw[i])

def kde_category(self, q, Xi):
    i = self.outputs.index(q)
    assert self.stattypes[i] in ['categorical', 'nominal']
    k = self.levels[q]
    p = [1 - self.bw[i] if s == Xi else self.bw[i] / (k - 1)
        for s in range(k)]
    assert np.allclose(sum(p), 1)
    return self.rng.choice(range(k), p=p)

def kde_score(self):
    def one(rowid, x):
        assert len(x) == len(self.outputs)
        return self.logpdf(rowid, {self.outputs[i]: v
            for i, v in enumerate(x) if not np.isnan(v)})
    return sum(one(rowid, x) for rowid, x in self.data.items())

def kde_score_marginal(self):
    def one(rowid, x):
        assert len(x) == len(self.outputs)
        return self.logpdf(None, {self.outputs[i]: v
            for i, v in enumerate(x) if not np.isnan(v)})
    return sum(one(rowid, x) for rowid, x in self.data.items())

def kde_score_zip(self):
    def one(rowid, x):
        assert len(x) == len(self.outputs)
        return self.logpdf(rowid, {q: v
            for q, v in zip(self.outputs, x) if not np.isnan(v)})
    return sum(one(rowid, x) for rowid, x in self.data.items())

def kde_score_marginal_zip(self):
    def one(rowid, x):
        assert len(x) == len(self.outputs)
        return self.logpdf(None, {q: v
            for q, v in zip(self.outputs, x) if not np.isnan(v)})
    return sum(one(rowid, x) for rowid, x in self.data.items())

def kde_transition(self, N=None):
    if self.N > 0:
        kde = kernel_density.KDEMultivariate(self._dataset(self.outputs),
            self._stattypes(self.outputs), bw='cv_ml')
        self.bw = kde.bw.tolist()

def kde_default(self, q):
    return 1 if self.stattypes[self.outputs.index(q)] == 'numerical' else .1

def kde_bw(self, outputs):
    return np.asarray([self.bw[self.outputs.index(q)] for q in outputs])

def kde_stattypes(self, outputs):
    kinds = {'numerical': 'c', 'categorical': 'u', 'nominal': 'u'}
    return str.join('', [kinds[self.stattypes[self.outputs.index(q)]]
        for q in outputs])

# Nearest neighbours.

def knn_logpdf(self, rowid, targets, constraints=None, inputs=None):
    given = self.populate_constraints(rowid, targets, constraints)
    if inputs:
        raise ValueError()
    if not given:
        raise ValueError()
    self._validate_simulate_logpdf(rowid, targets, given)
    data, areas = self._find_neighborhoods(targets, given)
    models = [self._create_local_model_joint(targets, data[n])
        for n in areas]
    return logsumexp([m.logpdf(targets) for m in models]) \\
        - np.log(len(models))

def knn_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if inputs:
        raise ValueError()
    size = 1 if N is None else N
    given = self.populate_constraints(rowid, targets, constraints)
    self._validate_simulate_logpdf(rowid, targets, given, size)
    if given:
        data, areas = self._find_neighborhoods(targets, given)
        models = [self._create_local_model_joint(targets, data[n])
            for n in areas]
        index = self.rng.choice(len(models), size=size)
        samples = [models[i].simulate(targets) for i in index]
    else:
        samples = self._simulate_fallback(rowid, targets, size)
        assert len(samples) == size
    return samples[0] if N is None else samples

def knn_fallback(self, rowid, targets, N):
    everything = len(targets) == len(self.outputs)
    given = [o for o in self.outputs if o not in targets]
    if everything:
        assert not given
        given = [targets[0]]
        targets = targets[1:]
    data = self._dataset(given)
    index = self.rng.choice(len(data), size=N)
    rows = [zip(given, data[i]) for i in index]
    samples = [self.simulate(rowid, targets, dict(e)) for e in rows]
    if everything:
        samples = [merged(s, e) for s, e in zip(samples, rows)]
    return samples

def knn_neighborhoods(self, targets, constraints):
    if not constraints:
        raise ValueError()
    if any(np.isnan(v) for v in constraints.values()):
        raise ValueError()
    names = list(targets) + list(constraints)
    D = self._dataset(names)
    if len(D) < self.K:
        raise ValueError()
    n = len(targets)
    ev = self._dummy_code(D[:,n:], names[n:])
    code = np.column_stack((self._dummy_code(D[:,:n], names[:n]), ev))
    dist, near = KDTree(ev).query(self._dummy_code(
        [constraints.values()], constraints.keys()), k=len(D))
    tied = [i for i, d in enumerate(dist[0]) if d <= dist[0][self.K - 1]]
    if self.K < len(tied):
        near = self.rng.choice(near[0][tied], replace=False, size=self.K)
    else:
        near = near[0][:self.K]
    _d, areas = KDTree(code).query(code[near], k=min(self.M, self.K))
    return D[:,:len(targets)], areas

def knn_dummy(self, D, variables):
    levels = {variables.index(l): self.levels[l]
        for l in variables if l in self.levels}
    if not levels:
        return D
    return np.asarray([dummy_code(r, levels) for r in D])

def knn_joint(self, targets, dataset):
    assert all(q in self.outputs for q in targets)
    assert dataset.shape[1] == len(targets)
    kinds = {
        'numerical': self._create_local_model_numerical,
        'categorical': self._create_local_model_categorical,
        'nominal': self._create_local_model_categorical,
    }
    models = {
        q: kinds[self.stattypes[self.outputs.index(q)]](q, dataset[:,i])
        for i, q in enumerate(targets)}
    def simulate(q, N=None):
        return {c: models[c].simulate(N) for c in q}
    def logpdf(q):
        return sum(models[c].logpdf(x) for c, x in q.iteritems())
    return LocalGpm(simulate, logpdf)

def knn_numerical(self, q, locality):
    assert q not in self.levels
    m, s = np.mean(locality), max(np.std(locality), .01)
    def simulate(N=None):
        return self.rng.normal(m, s, size=N)
    def logpdf(x):
        return norm.logpdf(x, m, s)
    return LocalGpm(simulate, logpdf)

def knn_categorical(self, q, locality):
    assert q in self.levels
    assert all(0 <= l < self.levels[q] for l in locality)
    n = np.bincount(locality.astype(int), minlength=self.levels[q])
    p = n / np.sum(n, dtype=float)
    def simulate(N):
        return self.rng.choice(self.levels[q], p=p, size=N)
    def logpdf(x):
        return np.log(p[int(x)]) if x in range(len(p)) else -float('inf')
    return LocalGpm(simulate, logpdf)

def knn_categorical_levels(self, q, locality):
    assert q in self.levels
    assert all(0 <= l < self.levels[q] for l in locality)
    n = np.bincount(locality.astype(int), minlength=self.levels[q])
    p = n / np.sum(n, dtype=float)
    def simulate(N):
        return self.rng.choice(self.levels[q], p=p, size=N)
    def logpdf(x):
        return np.log(p[int(x)]) if x in range(self.levels[q]) \
            else -float('inf')
    return LocalGpm(simulate, logpdf)

# Factor analysis.

def factor_logpdf(self, rowid, targets, constraints=None, inputs=None):
    given = self.populate_constraints(rowid, targets, constraints)
    if inputs:
        raise ValueError()
    if not targets:
        raise ValueError()
    if any(q not in self.outputs for q in targets):
        raise ValueError()
    if any(q in given for q in targets):
        raise ValueError()
    t = self.reindex(targets)
    mu, cov = FactorAnalysis.mvn_condition(self.mu, self.cov, t.keys(),
        self.reindex(given))
    return mvnormal.logpdf(np.array(t.values()), mu, cov)

def factor_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    given = self.populate_constraints(rowid, targets, constraints)
    if inputs:
        raise ValueError()
    if not targets:
        raise ValueError()
    if any(q not in self.outputs for q in targets):
        raise ValueError()
    if any(q in given for q in targets):
        raise ValueError()
    mu, cov = FactorAnalysis.mvn_condition(self.mu, self.cov,
        self.reindex(targets), self.reindex(given))
    draws = self.rng.multivariate_normal(mean=mu, cov=cov, size=N)
    def named(x):
        if isinstance(x, float):
            x = [x]
        assert len(targets) == len(x)
        return dict(zip(targets, x))
    return named(draws) if N is None else map(named, draws)

def factor_score(self):
    def one(x):
        assert len(x) == self.D
        return self.logpdf(None, {self.outputs[i]: v
            for i, v in enumerate(x) if not np.isnan(v)})
    return sum(one(x) for x in self.data.itervalues())

def factor_score_b(self):
    def one(x):
        assert len(x) == self.D
        return self.logpdf(None, {q: v
            for q, v in zip(self.outputs, x) if not np.isnan(v)})
    return sum(one(x) for x in self.data.itervalues())

def factor_transition(self, N=None):
    X = np.asarray(self.data.values())
    self.fa = sklearn.decomposition.FactorAnalysis(n_components=self.L)
    self.fa.fit(X[~np.any(np.isnan(X), axis=1)])
    assert self.L, self.D == self.fa.components_.shape
    self.Psi = np.diag(self.fa.noise_variance_)
    self.mux = self.fa.mean_
    self.W = np.transpose(self.fa.components_)
    self.mu, self.cov = self.joint_parameters()

def factor_reindex(self, variables):
    assert isinstance(variables, (list, dict))
    index = [self.output_mapping[q] - self.D if q in self.latents
        else self.output_mapping[q] + self.L for q in variables]
    if isinstance(variables, list):
        return index
    return dict(zip(index, variables.values()))

def factor_joint(self):
    return np.concatenate((np.zeros(self.L), self.mux)), np.row_stack((
        np.column_stack((np.eye(self.L), np.transpose(self.W))),
        np.column_stack((self.W,
            np.dot(self.W, np.transpose(self.W)) + self.Psi))))

def factor_condition(mu, cov, query, evidence):
    assert isinstance(query, list)
    assert isinstance(evidence, dict)
    assert len(mu) == cov.shape[0] == cov.shape[1]
    assert len(query) + len(evidence) <= len(mu)
    Q, E = query, evidence.keys()
    joint = np.row_stack((
        np.column_stack((cov[Q][:,Q], cov[Q][:,E])),
        np.column_stack((np.transpose(cov[Q][:,E]), cov[E][:,E]))))
    assert np.allclose(joint, np.transpose(joint))
    P = np.dot(cov[Q][:,E], inv(cov[E][:,E]))
    return (mu[Q] + np.dot(P, evidence.values() - mu[E]),
        cov[Q][:,Q] - np.dot(P, np.transpose(cov[Q][:,E])))
'''

OWN = ('logpdf', 'simulate', 'preprocess', 'populate_constraints', 'reindex',
    '_dataset', '_bw', '_stattypes', '_simulate_member', 'simulate_params',
    '_simulate_gaussian_kernel', '_simulate_aitchison_aitken_kernel',
    '_find_neighborhoods', '_create_local_model_joint', '_dummy_code',
    '_simulate_fallback', '_validate_simulate_logpdf', 'joint_parameters',
    '_validate_incorporate', 'input_to_code_index', '_create_local_model_numerical',
    '_create_local_model_categorical', 'posterior_hypers', 'calc_log_Z',
    'sample_parameters', 'calc_predictive_logp', 'calc_log_likelihood',
    'calc_logpdf_marginal', 'mvn_condition', 'dummy_code', 'cctype_class',
    'log_pflip', 'pflip', 'logsumexp', 'merged')


class Algebra(object):
    """Products of matrices: distributed over sums and reassociated."""

    def __init__(self, vectors=(), symmetric=()):
        # Positions of the parameters that are vectors, symmetric matrices.
        self.vectors = {mk('param', '#%d' % i) for i in vectors}
        self.symmetric = {mk('param', '#%d' % i) for i in symmetric}

    def __call__(self, t):
        if t.op == 'attr' and t.a[1] == 'T':
            return self.transposed(t.a[0])
        if t.op != 'call':
            return None
        f, a, kw = t.a
        l = last(f)
        if kw:
            return None
        if l == 'transpose' and len(a) == 1:
            return self.transposed(a[0])
        if l in ('asarray', 'array') and len(a) == 1 and a[0].op == 'param' \
                and self.vectors:
            # A list and the array of its values stand for the same.
            return a[0]
        if l == 'dot' and (len(a) == 2 or len(a) == 1 and f.op == 'attr'):
            return self.dot(*(a if len(a) == 2 else (f.a[0], a[0])))
        if l == 'inv' and len(a) == 1:
            return mk('inv', a[0])
        if l == 'solve' and len(a) == 2 and 'linalg' in show(f):
            return self.dot(mk('inv', a[0]), a[1])
        return None

    def dot(self, x, y):
        r = const(0)
        for k1, u in terms(x):
            if self.vector(u):
                u = self.transposed(u, row=True)
            for k2, v in terms(y):
                w = flat(u) + flat(v)
                if self.vector(w[0]) and self.vector(w[-1]):
                    # A number: its transpose is the same.
                    w = min(w, flat(self.transposed(mk('word', *w),
                        row=True)), key=lambda w: [show(x, limit=500)
                        for x in w])
                r = add(r, mul(mk('num', k1 * k2), mk('word', *w)))
        return r

    def vector(self, t):
        if t.op == 'word':
            return self.vector(t.a[-1]) != self.vector(t.a[0])
        if t.op == 'poly':
            return any(self.vector(x) for _k, x in terms(t))
        return t in self.vectors

    def transposed(self, t, row=False):
        if t in self.symmetric or self.vector(t) and not row:
            return t
        if t.op == 'transpose':
            return t.a[0]
        if t.op == 'word':
            return mk('word', *[self.transposed(x) for x in reversed(t.a)])
        if t.op == 'inv':
            return mk('inv', self.transposed(t.a[0]))
        if t.op == 'poly':
            r = const(0)
            for k, x in terms(t):
                r = add(r, mul(mk('num', k), self.transposed(x)))
            return r
        if t in self.vectors:
            return t
        return mk('transpose', t)


def flat(t):
    return t.a if t.op == 'word' else (t,)


def terms(t):
    """The scaled terms of a sum."""
    if t.op != 'poly':
        return [(1, t)]
    r = []
    for m, c in t.a[0]:
        x = const(1)
        for b, e in m:
            x = mul(x, b if e == 1 else mk('pow', b, const(e)))
        r.append((c, x))
    return r


def run(ctx):
    r = ctx.rule('regress.definition', 'Fits, densities and samples of each '
        'model are the ones that define it.')
    K = Kit(ctx, r, TEXT, 'regress')

    def one(qual, refs, what, **k):
        k.setdefault('rewrite', Algebra())
        K.one(qual, refs, what, stop=OWN, **k)

    R = 'regressions.'
    F = R + 'forest.RandomForest.'
    for q, n in ((F, 'forest'), (R + 'ols.OrdinaryLeastSquares.', 'ols'),
            (R + 'linreg.LinearRegression.', 'linreg'),
            ('kde.mvkde.MultivariateKde.', 'kde'),
            ('knn.mvknn.MultivariateKnn.', 'knn'),
            ('factor.factor.FactorAnalysis.', 'factor')):
        one(q + '__init__', [n + '_init'] + [n + '_init_b'] *
            (n in ('forest', 'linreg')), 'an untrained model')
    one('knn.mvknn.MultivariateKnn._validate_incorporate',
        'knn_validate_row', 'observations of the model')
    one('knn.mvknn.MultivariateKnn._validate_simulate_logpdf',
        'knn_validate_query', 'queries of the model')
    one('knn.mvknn.MultivariateKnn._validate_init', 'knn_validate_init',
        'arguments of the model')
    one(F + 'incorporate', 'forest_incorporate', 'a row is kept with its '
        'inputs, and its category counted')
    one(F + 'calc_predictive_logp', 'forest_logp', 'the forest is mixed with '
        'a uniform outlier')
    one(F + 'calc_log_likelihood', 'forest_likelihood', 'sum over the rows')
    one(F + 'logpdf', 'forest_logpdf', 'density of a category')
    one(F + 'simulate', ['forest_simulate', 'forest_simulate_own'],
        'categories are drawn from their '
        'densities')
    one(F + 'logpdf_score', 'forest_score', 'likelihood of the rows')
    one(F + 'transition_params', 'forest_transition', 'outlier weight and '
        'forest are fitted to the rows')
    one(F + 'preprocess', ['forest_preprocess', 'forest_preprocess_own'],
        'category and inputs of a row')
    O = R + 'ols.OrdinaryLeastSquares.'
    one(O + 'incorporate', 'pair_incorporate', 'a row is kept with its '
        'inputs')
    one(O + 'logpdf', 'ols_logpdf', 'normal around the regression')
    one(O + 'simulate', 'ols_simulate', 'the regression')
    one(O + 'transition', 'ols_transition', 'fit to the rows')
    one(O + 'preprocess', 'ols_preprocess', 'value and code of a row')
    one(O + '_predictor_count', 'ols_count', 'columns of the code')
    L = R + 'linreg.LinearRegression.'
    one(L + 'incorporate', 'pair_incorporate', 'a row is kept with its '
        'inputs')
    one(L + 'logpdf', 'linreg_logpdf', 'posterior predictive density')
    one(L + 'simulate', 'linreg_simulate', 'normal around the regression')
    one(L + 'simulate_params', 'linreg_params', 'posterior of the '
        'coefficients')
    one(L + 'logpdf_score', 'linreg_score', 'marginal likelihood')
    one(L + 'preprocess', 'linreg_preprocess', 'value and code of a row',
        rewrite=rows)
    one(L + '_predictor_count', 'linreg_count', 'columns of the code')
    one(L + 'calc_predictive_logp', 'linreg_predictive', 'ratio of '
        'normalizers')
    one(L + 'calc_logpdf_marginal', 'linreg_marginal', 'ratio of '
        'normalizers')
    one(L + 'posterior_hypers', 'linreg_posterior', 'normal inverse-gamma '
        'posterior', rewrite=Algebra(vectors=(1, 4), symmetric=(5,)))
    one(L + 'calc_log_Z', ['linreg_log_Z', 'linreg_log_Z_half'],
        'normalizer')
    one(L + 'sample_parameters', 'linreg_sample', 'sample of the '
        'coefficients')
    D = 'kde.mvkde.MultivariateKde.'
    N = 'knn.mvknn.MultivariateKnn.'
    A = 'factor.factor.FactorAnalysis.'
    for c in (D, N):
        one(c + 'populate_constraints', 'row_populate', 'an observed row is '
            'conditioned on')
        one(c + '_dataset', 'complete_rows', 'rows without missing values')
    one(A + 'populate_constraints', 'factor_populate', 'an observed row is '
        'conditioned on')
    one(D + 'incorporate', 'kde_incorporate', 'a row is kept by column')
    one(N + 'incorporate', 'knn_incorporate', 'a row is kept by column')
    one(A + 'incorporate', 'factor_incorporate', 'a row is kept by column')
    for m, n, w in (('logpdf', 'logpdf', 'density of the kernels'),
            ('simulate', 'simulate', 'weighted choice of an exemplar'),
            ('_simulate_member', 'member', 'each column by its kernel'),
            ('_simulate_gaussian_kernel', 'normal', 'normal kernel'),
            ('_simulate_aitchison_aitken_kernel', 'category',
                'category kernel'),
            ('transition', 'transition', 'bandwidths by cross-validation'),
            ('_default_bw', 'default', 'bandwidths'),
            ('_bw', 'bw', 'bandwidths by column'),
            ('_stattypes', 'stattypes', 'types by column')):
        one(D + m, ['kde_' + n] + ['kde_%s_b' % n] * (n in ('logpdf',
            'member')), w)
    one(D + 'logpdf_score', ['kde_score', 'kde_score_marginal',
        'kde_score_zip', 'kde_score_marginal_zip'],
        'sum over the rows')
    for m, n, w in (('logpdf', 'logpdf', 'average over the localities'),
            ('simulate', 'simulate', 'sample of a random locality'),
            ('_simulate_fallback', 'fallback', 'start from a random row'),
            ('_find_neighborhoods', 'neighborhoods', 'localities of the '
                'nearest rows'),
            ('_dummy_code', 'dummy', 'code of the columns'),
            ('_create_local_model_joint', 'joint', 'columns are independent '
                'within a locality'),
            ('_create_local_model_numerical', 'numerical', 'normal of the '
                'locality'),
            ('_create_local_model_categorical', 'categorical', 'frequencies '
                'of the locality')):
        one(N + m, ['knn_' + n] + ['knn_categorical_levels'] *
            (n == 'categorical'), w)
    for m, n, w in (('logpdf', 'logpdf', 'conditional normal'),
            ('simulate', 'simulate', 'conditional normal'),
            ('logpdf_score', 'score', 'sum over the rows'),
            ('transition', 'transition', 'fit to the complete rows'),
            ('reindex', 'reindex', 'latents come first'),
            ('joint_parameters', 'joint', 'joint of latents and data')):
        one(A + m, ['factor_' + n] + ['factor_score_b'] * (n == 'score'), w)
    K.one(A + 'mvn_condition', 'factor_condition', 'conditional normal',
        rewrite=Algebra(), open=('mvn_marginalize',))
