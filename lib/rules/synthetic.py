"""C09: the synthetic models sample from the densities they report."""
import ast
from effects import *       # noqa
from rules.mixture import Kit

TEXT = '''
import numpy as np
from math import log, pi
from scipy.misc import logsumexp as lse
from scipy.stats import norm
from scipy.stats import uniform
from cgpm.network.importance import ImportanceNetwork
from cgpm.uncorrelated.uniformx import UniformX
from cgpm.uncorrelated.diamond import DiamondY
from cgpm.uncorrelated.parabola import ParabolaY
from cgpm.uncorrelated.sin import SinY
from cgpm.utils import mvnormal
from cgpm.utils.general import gen_rng, logsumexp, normalize, pflip

# Undirected models: dispatch.

def undirected_init(self, outputs=None, inputs=None, noise=None, rng=None):
    self.rng = gen_rng(0) if rng is None else rng
    self.outputs = [0, 1] if outputs is None else outputs
    self.inputs = []
    self.noise = .1 if noise is None else noise

def undirected_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert not inputs
    if constraints:
        assert len(constraints) == len(targets) == 1
        return self.logpdf_conditional(
            targets.values()[0], constraints.values()[0])
    if len(targets) == 2:
        x, y = [targets[o] for o in self.outputs]
        return self.logpdf_joint(x, y)
    return self.logpdf_marginal(targets.values()[0])

def undirected_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert not inputs
    if constraints:
        assert len(constraints) == len(targets) == 1
        return {targets[0]:
            self.simulate_conditional(constraints.values()[0])}
    sample = self.simulate_joint()
    return {q: sample[self.outputs.index(q)] for q in targets}

def linear_joint(self):
    r = 1 - self.noise
    return self.rng.multivariate_normal([0, 0], [[1, r], [r, 1]])

def linear_conditional(self, z):
    r = 1 - self.noise
    return self.rng.normal(loc=r*z, scale=np.sqrt(1 - r**2))

def linear_logpdf_joint(self, x, y):
    r = 1 - self.noise
    return mvnormal.logpdf(np.array([x, y]), np.array([0, 0]),
        np.array([[1, r], [r, 1]]))

def linear_logpdf_marginal(self, z):
    return norm.logpdf(z, scale=1)

def linear_logpdf_marginal_short(self, z):
    return norm.logpdf(z)

def linear_logpdf_conditional(self, w, z):
    r = 1 - self.noise
    return norm.logpdf(w, loc=r*z, scale=np.sqrt(1 - r**2))

def linear_mi(self):
    return -.5 * np.log(1 - (1 - self.noise)**2)

def xcross_joint(self):
    r = 1 - self.noise
    if self.rng.rand() < .5:
        cov = np.array([[1, r], [r, 1]])
    else:
        cov = np.array([[1, -r], [-r, 1]])
    return self.rng.multivariate_normal([0, 0], cov=cov)

def xcross_logpdf_joint(self, x, y):
    r = 1 - self.noise
    p = np.array([x, y])
    m = np.array([0, 0])
    return logsumexp([
        np.log(.5) + mvnormal.logpdf(p, m, np.array([[1, r], [r, 1]])),
        np.log(.5) + mvnormal.logpdf(p, m, np.array([[1, -r], [-r, 1]]))])

def dots_joint(self):
    n = self.rng.randint(4)
    return [self.rng.normal(loc=self.mx[n], scale=self.noise),
        self.rng.normal(loc=self.my[n], scale=self.noise)]

def dots_conditional(self, z):
    return dots_joint(self)[0]

def dots_conditional_y(self, z):
    return dots_joint(self)[1]

def dots_logpdf_joint(self, x, y):
    return logsumexp([np.log(.25)
        + norm.logpdf(x, loc=a, scale=self.noise)
        + norm.logpdf(y, loc=b, scale=self.noise)
        for a, b in zip(self.mx, self.my)])

def dots_logpdf_marginal(self, z):
    return logsumexp([np.log(.5) + norm.logpdf(z, loc=m, scale=self.noise)
        for m in set(self.mx)])

def dots_logpdf_conditional(self, w, z):
    return dots_logpdf_marginal(self, w)

def ring_joint(self):
    angle = self.rng.uniform(0., 2.*np.pi)
    distance = self.rng.uniform(1. - self.noise, 1.)
    return [distance * np.cos(angle), distance * np.sin(angle)]

# Directed models: a network of a uniform cause and its effect.

def directed_logpdf(self, rowid, targets, constraints=None, inputs=None):
    if self.network is None:
        raise ValueError('abstract')
    return self.network.logpdf(rowid, targets, constraints, inputs)

def directed_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if self.network is None:
        raise ValueError('abstract')
    return self.network.simulate(rowid, targets, constraints, inputs, N)

def directed_init(self, outputs=None, inputs=None, noise=None, acc=1,
        rng=None):
    if type(self) is DirectedXyGpm:
        raise Exception('abstract')
    self.rng = gen_rng(0) if rng is None else rng
    self.outputs = [0, 1] if outputs is None else outputs
    self.inputs = []
    self.noise = .1 if noise is None else noise
    self.acc = acc
    self.network = None

def base_init(self, outputs, noise, rng):
    self.rng = gen_rng(0) if rng is None else rng
    self.outputs = [0, 1] if outputs is None else outputs
    self.inputs = []
    self.noise = .1 if noise is None else noise
    self.acc = 1
    self.network = None

def diamond_init(self, outputs=None, inputs=None, noise=None, rng=None):
    base_init(self, outputs, noise, rng)
    self.x = UniformX(outputs=[self.outputs[0]], low=-1, high=1,
        rng=self.rng)
    self.y = DiamondY(outputs=[self.outputs[1]], inputs=[self.outputs[0]],
        noise=noise, rng=self.rng)
    self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)

def diamond_init_noise(self, outputs=None, inputs=None, noise=None,
        rng=None):
    base_init(self, outputs, noise, rng)
    self.x = UniformX(outputs=[self.outputs[0]], low=-1, high=1,
        rng=self.rng)
    self.y = DiamondY(outputs=[self.outputs[1]], inputs=[self.outputs[0]],
        noise=self.noise, rng=self.rng)
    self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)

def parabola_init(self, outputs=None, inputs=None, noise=None, rng=None):
    base_init(self, outputs, noise, rng)
    self.x = UniformX(outputs=[self.outputs[0]], low=-1, high=1,
        rng=self.rng)
    self.y = ParabolaY(outputs=[self.outputs[1]], inputs=[self.outputs[0]],
        noise=noise, rng=self.rng)
    self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)

def parabola_init_noise(self, outputs=None, inputs=None, noise=None,
        rng=None):
    base_init(self, outputs, noise, rng)
    self.x = UniformX(outputs=[self.outputs[0]], low=-1, high=1,
        rng=self.rng)
    self.y = ParabolaY(outputs=[self.outputs[1]], inputs=[self.outputs[0]],
        noise=self.noise, rng=self.rng)
    self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)

def sin_init(self, outputs=None, inputs=None, noise=None, rng=None):
    base_init(self, outputs, noise, rng)
    self.x = UniformX(outputs=[self.outputs[0]], low=-1.5*np.pi,
        high=1.5*np.pi, rng=self.rng)
    self.y = SinY(outputs=[self.outputs[1]], inputs=[self.outputs[0]],
        noise=noise, rng=self.rng)
    self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
    self.D = (self.x.low, self.x.high)

def sin_init_noise(self, outputs=None, inputs=None, noise=None, rng=None):
    base_init(self, outputs, noise, rng)
    self.x = UniformX(outputs=[self.outputs[0]], low=-1.5*np.pi,
        high=1.5*np.pi, rng=self.rng)
    self.y = SinY(outputs=[self.outputs[1]], inputs=[self.outputs[0]],
        noise=self.noise, rng=self.rng)
    self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
    self.D = (self.x.low, self.x.high)

def uniform_init(self, outputs=None, inputs=None, low=0, high=1, rng=None):
    assert not inputs
    self.rng = gen_rng(0) if rng is None else rng
    self.outputs = [0] if outputs is None else outputs
    self.inputs = []
    self.low = low
    self.high = high
    self.uniform = uniform(loc=low, scale=high - low)

def uniform_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert not constraints
    assert targets == self.outputs
    return {self.outputs[0]: self.rng.uniform(low=self.low, high=self.high)}

def uniform_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert not constraints
    assert not inputs
    assert targets.keys() == self.outputs
    return self.uniform.logpdf(targets[self.outputs[0]])

def effect_init(self, outputs, inputs, noise, rng):
    self.rng = gen_rng(1) if rng is None else rng
    self.outputs = [0] if outputs is None else outputs
    self.inputs = [1] if inputs is None else inputs
    self.noise = .1 if noise is None else noise

def diamondy_init(self, outputs=None, inputs=None, noise=None, rng=None):
    effect_init(self, outputs, inputs, noise, rng)

def parabolay_init(self, outputs=None, inputs=None, noise=None, rng=None):
    effect_init(self, outputs, inputs, noise, rng)
    n = .1 if noise is None else noise
    self.uniform = uniform(loc=-n, scale=2*n)

def siny_init(self, outputs=None, inputs=None, noise=None, rng=None):
    effect_init(self, outputs, inputs, noise, rng)
    self.uniform = uniform(scale=.1 if noise is None else noise)

def diamondy_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert inputs.keys() == self.inputs
    x = inputs[self.inputs[0]]
    slope = self.rng.rand()
    noise = self.rng.uniform(high=self.noise)
    if x < 0 and slope < .5:
        y = max(-x-1, x+1 - noise)
    elif x < 0 and slope > .5:
        y = min(x+1, -x-1 + noise)
    elif x > 0 and slope < .5:
        y = min(-x+1, x-1 + noise)
    elif x > 0 and slope > .5:
        y = max(x-1, -x+1 - noise)
    else:
        raise ValueError()
    return {self.outputs[0]: y}

def parabolay_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert inputs.keys() == self.inputs
    assert not constraints
    x = inputs[self.inputs[0]]
    sign = self.rng.rand()
    noise = self.rng.uniform(low=-self.noise, high=self.noise)
    y = x**2 + noise if sign < .5 else -(x**2 + noise)
    return {self.outputs[0]: y}

def parabolay_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert targets.keys() == self.outputs
    assert inputs.keys() == self.inputs
    assert not constraints
    x = inputs[self.inputs[0]]
    y = targets[self.outputs[0]]
    return lse([np.log(.5) + self.uniform.logpdf(y - x**2),
        np.log(.5) + self.uniform.logpdf(-y - x**2)])

def siny_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets == self.outputs
    assert inputs.keys() == self.inputs
    assert not constraints
    c = np.cos(inputs[self.inputs[0]])
    noise = self.rng.uniform(high=self.noise)
    return {self.outputs[0]: c + noise if c < 0 else c - noise}

def siny_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert targets.keys() == self.outputs
    assert inputs.keys() == self.inputs
    assert not constraints
    c = np.cos(inputs[self.inputs[0]])
    y = targets[self.outputs[0]]
    return self.uniform.logpdf(y - c) if c < 0 else self.uniform.logpdf(c - y)

# Tables.

def fourway_init(self, outputs, inputs, distargs=None, rng=None):
    self.rng = gen_rng(1) if rng is None else rng
    self.probabilities = [
        [.70, .10, .05, .05],
        [.10, .80, .10, .10],
        [.10, .15, .65, .10],
        [.10, .05, .10, .75]]
    assert len(outputs) == 1
    assert len(inputs) == 2
    self.outputs = list(outputs)
    self.inputs = list(inputs)

def fourway_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    r = lookup_quadrant(inputs[self.inputs[0]], inputs[self.inputs[1]])
    return {self.outputs[0]: pflip(self.probabilities[r], rng=self.rng)}

def fourway_logpdf(self, rowid, targets, constraints=None, inputs=None):
    x = targets[self.outputs[0]]
    if not (0 <= x <= 3):
        return -float('inf')
    r = lookup_quadrant(inputs[self.inputs[0]], inputs[self.inputs[1]])
    return np.log(normalize(self.probabilities[r])[x])

def lookup_quadrant(y0, y1):
    if y0 >= 0 and y1 >= 0:
        return 0
    if y0 <= 0 and y1 >= 0:
        return 1
    if y0 >= 0 and y1 <= 0:
        return 2
    if y0 <= 0 and y1 <= 0:
        return 3
    raise ValueError('not a number')

def twoway_init(self, outputs, inputs, distargs=None, rng=None):
    self.rng = gen_rng(1) if rng is None else rng
    self.probabilities = [[.9, .1], [.3, .7]]
    assert len(outputs) == 1
    assert len(inputs) == 1
    self.outputs = list(outputs)
    self.inputs = list(inputs)

def twoway_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    y = inputs[self.inputs[0]]
    assert int(y) == float(y)
    assert y in [0, 1]
    return {self.outputs[0]: pflip(self.probabilities[y], rng=self.rng)}

def twoway_logpdf(self, rowid, targets, constraints=None, inputs=None):
    y = inputs[self.inputs[0]]
    assert int(y) == float(y)
    assert y in [0, 1]
    x = targets[self.outputs[0]]
    if x not in [0, 1]:
        return -float('inf')
    return np.log(self.probabilities[y][x])

# Gaussians.

def troll_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    return {self.outputs[0]: self.rng.normal(
        inputs[self.inputs[0]], abs(inputs[self.inputs[1]]) + 1)}

def troll_logpdf(self, rowid, targets, constraints=None, inputs=None):
    x = targets[self.outputs[0]]
    m = inputs[self.inputs[0]]
    s = abs(inputs[self.inputs[1]]) + 1
    return -np.log(2*np.pi)/2 - np.log(s) - (x - m)**2 / (2*s**2)

def gauss(x, m, s):
    return -log(s) - .5*log(2*pi) - .5*(x - m)*(x - m)/(s*s)

def piecewise_init(self, outputs, inputs, sigma=None, flip=None,
        distargs=None, rng=None):
    self.rng = gen_rng(1) if rng is None else rng
    assert len(outputs) == 2
    assert len(inputs) == 1
    self.outputs = list(outputs)
    self.inputs = list(inputs)
    self.sigma = 1 if sigma is None else sigma
    self.flip = .5 if flip is None else flip

def piecewise_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    assert targets
    assert inputs.keys() == self.inputs
    y = inputs[self.inputs[0]]
    sample = {}
    if not constraints:
        z = self.rng.choice([0, 1], p=[self.flip, 1 - self.flip])
        x = y + (2*z - 1) + self.rng.normal(0, self.sigma)
        if self.outputs[0] in targets:
            sample[self.outputs[0]] = x
        if self.outputs[1] in targets:
            sample[self.outputs[1]] = z
    elif constraints.keys() == [self.outputs[1]]:
        assert targets == [self.outputs[0]]
        z = constraints[self.outputs[1]]
        x = y + (2*z - 1) + self.rng.normal(0, self.sigma)
        sample = {self.outputs[0]: x}
    elif constraints.keys() == [self.outputs[0]]:
        assert targets == [self.outputs[1]]
        given = constraints[self.outputs[0]]
        p0 = point(self, given, 0, y) - mixed(self, given, y)
        p1 = point(self, given, 1, y) - mixed(self, given, y)
        sample = {self.outputs[1]:
            self.rng.choice([0, 1], p=[np.exp(p0), np.exp(p1)])}
    else:
        raise ValueError('unknown query')
    assert sorted(sample.keys()) == sorted(targets)
    return sample

def switch(self, z):
    return np.log(self.flip) if z == 0 else np.log(1 - self.flip)

def point(self, x, z, y):
    return switch(self, z) + gauss(x, y + (2*z - 1), self.sigma)

def mixed(self, x, y):
    return logsumexp([point(self, x, 0, y), point(self, x, 1, y)])

def piecewise_logpdf(self, rowid, targets, constraints=None, inputs=None):
    assert targets
    assert inputs.keys() == self.inputs
    y = inputs[self.inputs[0]]
    if not constraints:
        if self.outputs[0] in targets and self.outputs[1] in targets:
            return point(self, targets[self.outputs[0]],
                targets[self.outputs[1]], y)
        if self.outputs[1] in targets:
            return switch(self, targets[self.outputs[1]])
        if self.outputs[0] in targets:
            return mixed(self, targets[self.outputs[0]], y)
        raise ValueError('unknown query')
    if constraints.keys() == [self.outputs[1]]:
        assert targets.keys() == [self.outputs[0]]
        z = constraints[self.outputs[1]]
        x = targets[self.outputs[0]]
        return gauss(x, y + (2*z - 1), self.sigma)
    if constraints.keys() == [self.outputs[0]]:
        assert targets.keys() == [self.outputs[1]]
        z = targets[self.outputs[1]]
        x = constraints[self.outputs[0]]
        return point(self, x, z, y) - mixed(self, x, y)
    raise ValueError('unknown query')

def barebones_logpdf(self, rowid, targets, constraints=None, inputs=None):
    return 0

def barebones_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    if N is None:
        return {i: 1 for i in targets}
    return [{i: 1 for i in targets} for _ in xrange(N)]
'''

U = 'uncorrelated.'
DIRECTED = {'diamond.Diamond': 'diamond', 'parabola.Parabola': 'parabola',
    'sin.Sin': 'sin'}
LEAF = {'uncorrelated.uniformx.UniformX': 'uniform',
    'uncorrelated.parabola.ParabolaY': 'parabolay',
    'uncorrelated.sin.SinY': 'siny',
    'dummy.fourway.FourWay': 'fourway', 'dummy.twoway.TwoWay': 'twoway',
    'dummy.piecewise.PieceWise': 'piecewise'}
OWN = ('logpdf_joint', 'logpdf_marginal', 'logpdf_conditional',
    'simulate_joint', 'simulate_conditional')


def concrete(t):
    """An instance of a subclass is not one of its base class."""
    if t.op == 'is' and any(x.op == 'call' and x.a[0] == mk('glob', 'type')
            and x.a[1] == (mk('param', 'self'),) for x in t.a) and any(
            x.op in ('class', 'glob') and str(x.a[0]).endswith(
            'DirectedXyGpm') for x in t.a):
        return FALSE


def run(ctx):
    r = ctx.rule('synthetic.definition', 'Samples and densities of each '
        'synthetic model are those of the same distribution.')
    K = Kit(ctx, r, TEXT, 'synthetic')

    def one(qual, refs, what):
        K.one(qual, refs, what, **({'stop': OWN} if 'UnDirected' in qual
            else {'open': OWN}))

    X = U + 'undirected.UnDirectedXyGpm.'
    one(X + '__init__', 'undirected_init', 'the columns and the noise')
    one(X + 'logpdf', 'undirected_logpdf', 'joint, marginal and conditional '
        'densities get the values of their columns')
    one(X + 'simulate', 'undirected_simulate', 'samples of the columns that '
        'are asked for')
    L = U + 'linear.Linear.'
    D = U + 'dots.Dots.'
    C = U + 'xcross.XCross.'
    one(L + 'simulate_joint', 'linear_joint', 'a bivariate normal')
    one(L + 'simulate_conditional', 'linear_conditional', 'its conditional')
    one(L + 'logpdf_joint', 'linear_logpdf_joint', 'its density')
    one(L + 'logpdf_marginal', ['linear_logpdf_marginal',
        'linear_logpdf_marginal_short'], 'its marginal density')
    one(L + 'logpdf_conditional', 'linear_logpdf_conditional',
        'its conditional density')
    one(L + 'mutual_information', 'linear_mi', 'its mutual information')
    one(C + 'simulate_joint', 'xcross_joint', 'one of two normals')
    one(C + 'logpdf_joint', 'xcross_logpdf_joint', 'a mixture of two normals')
    one(D + 'simulate_joint', 'dots_joint', 'one of four dots')
    one(D + 'simulate_conditional', ['dots_conditional',
        'dots_conditional_y'], 'the columns are independent')
    one(D + 'logpdf_joint', 'dots_logpdf_joint', 'a mixture of four dots')
    one(D + 'logpdf_marginal', 'dots_logpdf_marginal', 'two of the dots')
    one(D + 'logpdf_conditional', 'dots_logpdf_conditional', 'the columns '
        'are independent')
    one(U + 'ring.Ring.simulate_joint', 'ring_joint', 'a point near a circle')
    G = U + 'directed.DirectedXyGpm.'
    one(G + 'logpdf', 'directed_logpdf', 'queries go to the network')
    one(G + 'simulate', 'directed_simulate', 'queries go to the network')
    for c, n in DIRECTED.items():
        K.one(U + c + '.__init__', [n + '_init', n + '_init_noise'],
            'a cause and its effect on the columns of the model',
            rewrite=concrete)
    K.one(U + 'diamond.DiamondY.__init__', 'diamondy_init', 'columns, noise')
    one(U + 'diamond.DiamondY.simulate', 'diamondy_simulate', 'a diamond')
    for c, n in LEAF.items():
        K.one(c + '.__init__', n + '_init', 'the model keeps what it is given')
        if n == 'piecewise':
            # Its queries are made of its other queries.
            for m in ('simulate', 'logpdf'):
                K.one(c + '.' + m, n + '_' + m, 'the joint distribution, its '
                    'marginals and its conditionals', open=('logpdf',),
                    deep=('logpdf',))
            continue
        one(c + '.simulate', n + '_simulate', 'samples')
        one(c + '.logpdf', n + '_logpdf', 'densities')
    one('dummy.trollnormal.TrollNormal.simulate', 'troll_simulate', 'samples')
    one('dummy.trollnormal.TrollNormal.logpdf', 'troll_logpdf', 'densities')
    one('dummy.barebones.BareBonesCGpm.simulate', 'barebones_simulate',
        'a constant')
    one('dummy.barebones.BareBonesCGpm.logpdf', 'barebones_logpdf',
        'a constant')
    K.one('dummy.fourway.FourWay.lookup_quadrant', 'lookup_quadrant',
        'the quadrant of the inputs')
    # The marginals and conditionals of the dots take their means to be two
    # values in each column, in all four combinations.
    c = ctx.ix.cls('cgpm.uncorrelated.dots.Dots')
    try:
        mx, my = [list(ast.literal_eval(c.attrs[n])) for n in ('mx', 'my')]
        ok = len(mx) == len(my) == 4 and len(set(mx)) == 2 and \
            set(mx) == set(my) and len(set(zip(mx, my))) == 4
    except (KeyError, ValueError):
        ok = False
    ctx.check(ok, r, 'Dots.means', 'the four dots are the combinations of '
        'two values per column', c.methods['logpdf_marginal'].where())
