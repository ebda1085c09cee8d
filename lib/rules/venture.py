"""C23: external probabilistic programs see exactly what the user does.

Each operation of the two Venture adapters, as a guarded multiset of effects
on the program (observe, predict, infer, forget, ...) and on the adapter's own
record, is compared with a reference definition; updates of the same object
keep their order."""
from effects import *       # noqa
from effects import UPDATES
from rules.mixture import keep, facts
from rules import reject
import core

RIPL = {'observe', 'predict', 'forget', 'infer', 'evaluate', 'assume',
    'sample', 'execute_program', 'set_mode', 'load_plugin', 'loads',
    'append', 'pop', 'remove', 'add'}

REF = '''
import base64
import copy
import math
import string
from collections import defaultdict
import venture.shortcuts as vs
from cgpm.utils import general as gu
from cgpm.venturescript.vscgpm import VsCGpm
from cgpm.venturescript.vsinline import InlineVsCGpm

# -- Programs that are whole models ------------------------------------------

def do_vs_init(self, outputs, inputs, rng=None, sp=None, **kwargs):
    self.rng = gu.gen_rng(1) if rng is None else rng
    seed = self.rng.randint(1, 2**31 - 1)
    if len(set(outputs)) != len(outputs) or len(set(inputs)) != len(inputs):
        raise ValueError()
    if any(o in inputs for o in outputs):
        raise ValueError()
    if any(i in outputs for i in inputs):
        raise ValueError()
    self.ripl = kwargs.get('ripl', vs.make_lite_ripl(seed=seed))
    self.mode = kwargs.get('mode', 'church_prime')
    self.source = kwargs.get('source', None)
    if self.source is not None:
        self.ripl.set_mode(self.mode)
        self.ripl.execute_program(self.source)
    self.plugins = kwargs.get('plugins', None)
    if self.plugins:
        for plugin in self.plugins.split(','):
            self.ripl.load_plugin(plugin.strip())
    self.ripl.set_mode('church_prime')
    if not kwargs.get('supress', None):
        self.ripl.evaluate('(%s)' % ('make_cgpm' if sp is None else sp,))
    if len(outputs) != len(self.ripl.sample('simulators')):
        raise ValueError()
    self.outputs = outputs
    if len(inputs) != self.ripl.evaluate('(size inputs)'):
        raise ValueError()
    self.inputs = inputs
    if len(self.outputs) != self.ripl.evaluate('(size observers)'):
        raise ValueError()
    self.obs = defaultdict(lambda: defaultdict(dict))

def do_vs_incorporate(self, rowid, observation, inputs=None):
    held = self._validate_incorporate(rowid, observation, inputs)
    for q in observation:
        self._observe_cell(rowid, q, observation[q], held)

def do_vs_recorded(self, rowid, observation, inputs=None):
    vs_incorporate(self, rowid, observation, inputs)
    if rowid not in self.obs:
        self.obs[rowid]['inputs'] = dict(inputs or {})
    return self.obs[rowid]['inputs']

def do_vs_unincorporate(self, rowid):
    if rowid not in self.obs:
        raise ValueError()
    for q in self.outputs:
        self._forget_cell(rowid, q)
    assert len(self.obs[rowid]['labels']) == 0
    del self.obs[rowid]

def do_vs_simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
    given, held = self._validate_simulate(rowid, targets, constraints, inputs)
    recorded = rowid in self.obs
    if given:
        for q in given:
            self._observe_cell(rowid, q, given[q], held)
        self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 15))
    labels = [self._gen_label() for q in targets]
    draw = {}
    for q, l in zip(targets, labels):
        draw[q] = self._predict_cell(rowid, q, held, l)
    for l in labels:
        self.ripl.forget(l)
    for q in given:
        self._forget_cell(rowid, q)
    if given and not recorded:
        del self.obs[rowid]
    return draw

def do_vs_simulate_each(self, rowid, targets, constraints=None, inputs=None, N=None):
    given, held = self._validate_simulate(rowid, targets, constraints, inputs)
    recorded = rowid in self.obs
    if given:
        for q in given:
            self._observe_cell(rowid, q, given[q], held)
        self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 15))
    labels = [self._gen_label() for q in targets]
    draw = {q: self._predict_cell(rowid, q, held, l)
        for q, l in zip(targets, labels)}
    for l in labels:
        self.ripl.forget(l)
    for q in given:
        self._forget_cell(rowid, q)
    if given and not recorded:
        del self.obs[rowid]
    return draw

def do_vs_checked(self, rowid, targets, constraints, inputs):
    vs_simulate(self, rowid, targets, constraints, inputs)
    given = constraints or dict()
    held = inputs or dict()
    if rowid in self.obs and not held:
        held = self.obs[rowid]['inputs']
    return given, held

def do_vs_observe(self, rowid, query, value, inputs):
    args = [rowid] + [inputs[i] for i in self.inputs]
    label = "'" + self._gen_label()
    text = ' '.join([str(x) for x in args + [value, label]])
    self.ripl.evaluate('((lookup observers %i) %s)' % (
        self.outputs.index(query), text))
    self.obs[rowid]['labels'][query] = label[1:]

def do_vs_predict(self, rowid, target, inputs, label):
    args = [rowid] + [inputs[i] for i in self.inputs]
    text = ' '.join([str(x) for x in args])
    return self.ripl.predict('((lookup simulators %i) %s)' % (
        self.outputs.index(target), text), label=label)

def do_vs_forget(self, rowid, query):
    if query in self.obs[rowid]['labels']:
        self.ripl.forget(self.obs[rowid]['labels'][query])
        del self.obs[rowid]['labels'][query]

def do_vs_transition(self, program=None, N=None):
    if program is None:
        self.ripl.infer('(transition %d)' % (1 if N is None else N,))
    else:
        self.ripl.execute_program(program)

# -- Programs that are one expression ----------------------------------------

def do_inline_init(self, outputs, inputs, rng=None, expression=None, **kwargs):
    self.rng = gu.gen_rng(1) if rng is None else rng
    seed = self.rng.randint(1, 2**31 - 1)
    if len(outputs) != 1 or len(set(inputs)) != len(inputs):
        raise ValueError()
    if any(o in inputs for o in outputs):
        raise ValueError()
    if any(i in outputs for i in inputs):
        raise ValueError()
    if expression is None:
        raise ValueError()
    self.outputs = outputs
    self._validate_expression_concrete(expression, inputs)
    self.inputs = inputs
    self.expression = expression
    self.ripl = vs.make_lite_ripl(seed=seed)
    self.ripl.execute_program(self.expression)
    self.ripl.execute_program('assume uniform = uniform_continuous')

def do_inline_logpdf(self, rowid, targets, constraints=None, inputs=None):
    inline_logpdf(self, rowid, targets, constraints, inputs)
    held = {} if inputs is None else inputs
    self.ripl.assume('expr', self.expression, label='expr_assume')
    text = ','.join([str(held[i]) for i in self.inputs])
    logp = self.ripl.observe('expr (%s)' % (text,),
        targets[self.outputs[0]], label='expr_observe')
    self.ripl.forget('expr_observe')
    self.ripl.forget('expr_assume')
    return logp[0]

def do_inline_simulate(self, rowid, targets, constraints=None, inputs=None,
        N=None):
    inline_simulate(self, rowid, targets, constraints, inputs)
    held = {} if inputs is None else inputs
    self.ripl.assume('expr', self.expression, label='expr')
    text = ','.join([str(held[i]) for i in self.inputs])
    sample = self.ripl.sample('expr(%s)' % (text,))
    self.ripl.forget('expr')
    return {self.outputs[0]: sample}

# -- Saving and loading --------------------------------------------------------

def do_vs_save(self):
    saved = {}
    saved['obs'] = VsCGpm._obs_to_json(copy.deepcopy(self.obs))
    saved['source'] = self.source
    saved['mode'] = self.mode
    saved['plugins'] = self.plugins
    saved['outputs'] = self.outputs
    saved['inputs'] = self.inputs
    saved['binary'] = base64.b64encode(self.ripl.saves())
    saved['factory'] = ('cgpm.venturescript.vscgpm', 'VsCGpm')
    return saved

def do_vs_load(cls, metadata, rng=None):
    ripl = vs.make_lite_ripl()
    ripl.loads(base64.b64decode(metadata['binary']))
    model = VsCGpm(outputs=metadata['outputs'], inputs=metadata['inputs'],
        ripl=ripl, source=metadata['source'], mode=metadata['mode'],
        supress=True, plugins=metadata['plugins'], rng=rng)
    held = VsCGpm._obs_from_json(metadata['obs'])
    model.obs = defaultdict(lambda: defaultdict(dict))
    for r in held:
        model.obs[r] = defaultdict(dict, held[r])
    return model

def texts(held):
    assert all(isinstance(c, int) for c in held)
    return {str(c): v for c, v in held.items()}

def numbers(held):
    assert all(isinstance(c, (str, unicode)) for c in held)
    return {int(c): v for c, v in held.items()}

def do_vs_outward(obs):
    out = texts(obs)
    for r in out:
        out[r]['inputs'] = texts(out[r]['inputs'])
        out[r]['labels'] = texts(out[r]['labels'])
    return out

def do_vs_inward(obs):
    out = numbers(obs)
    for r in out:
        out[r] = dict(out[r])
        out[r]['inputs'] = numbers(out[r]['inputs'])
        out[r]['labels'] = numbers(out[r]['labels'])
    return out

def do_inline_save(self):
    return {'outputs': self.outputs, 'inputs': self.inputs,
        'expression': self.expression,
        'factory': ('cgpm.venturescript.vsinline', 'InlineVsCGpm')}

def do_inline_load(cls, metadata, rng=None):
    return InlineVsCGpm(outputs=metadata['outputs'],
        inputs=metadata['inputs'], expression=metadata['expression'], rng=rng)

# -- Record keeping of the synthetic model that keeps one ---------------------

def do_troll_incorporate(self, rowid, observation, inputs=None):
    if rowid in self.rowids:
        raise ValueError()
    self.rowids.add(rowid)

def do_troll_unincorporate(self, rowid):
    if rowid not in self.rowids:
        raise ValueError()
    self.rowids.remove(rowid)

def do_troll_init(self, outputs, inputs, rng=None, distargs=None):
    if len(outputs) != 1 or len(inputs) != 2:
        raise ValueError()
    self.rng = gu.gen_rng(1) if rng is None else rng
    self.outputs = list(outputs)
    self.inputs = list(inputs)
    self.rowids = set()
'''

HELPERS = {'_predict_cell', '_observe_cell', '_forget_cell',
    '_validate_incorporate', '_validate_simulate',
    '_validate_expression_concrete', '_validate_expression_abstract'}


def rewrite(t):
    if t.op == 'setitem' and t.a[0].op == 'dict' and t.a[1].op == 'const' \
            and all(k.op == 'const' for k, _ in t.a[0].a):
        t = mk('dict', *([p for p in t.a[0].a if p[0] is not t.a[1]] +
            [(t.a[1], t.a[2])]))
    if t.op == 'dict' and all(k.op == 'const' for k, _ in t.a):
        return mk('dict', *sorted(t.a, key=lambda p: show(p[0])))
    if t.op == 'call' and len(t.a[1]) == 2 and not t.a[2] and \
            t.a[0].op == 'glob' and '.'.join(t.a[0].a[0]
            if isinstance(t.a[0].a[0], tuple) else (t.a[0].a[0],)) \
            == 'str.join':
        return mk('call', mk('attr', t.a[1][0], 'join'), t.a[1][1:], ())
    return facts(t)


def setting(ctx, R):
    ref = Ref(ctx, reject.REF + REF, 'venture')

    def one(q, r, what, stop=HELPERS, **kw):
        cn, mn = ('cgpm.' + q).rsplit('.', 1)
        cls = ctx.ix.cls(cn)
        f = cls.lookup(mn)
        name = '%s.%s' % (cls.name, mn)
        if f is None:
            ctx.violation(R, name, 'operation not found', cls.where())
            return
        E = Effects(ctx, keep('_gen_label', *stop), rewrite=rewrite,
            updates=(UPDATES | RIPL | HELPERS) - {'join'})
        agree(ctx, R, f, r if isinstance(r, list) else [r], ref, what, E,
            cls=cls, construct=name, rejects=False, fresh='all', **kw)
    return one


def saved(ctx):
    R = ctx.rule('program-saved-and-restored',
        'what is saved of a program, and what is built from it, equal the '
        'reference, on every path')
    one = setting(ctx, R)
    vs = 'venturescript.vscgpm.VsCGpm.'
    keys = {'_obs_to_json', '_obs_from_json', '__init__'}
    one(vs + 'to_metadata', 'do_vs_save', 'saved form', stop=keys)
    one(vs + 'from_metadata', 'do_vs_load', 'loaded model', stop=keys)
    one(vs + '_obs_to_json', 'do_vs_outward', 'saved record')
    one(vs + '_obs_from_json', 'do_vs_inward', 'loaded record')
    vs = 'venturescript.vsinline.InlineVsCGpm.'
    one(vs + 'to_metadata', 'do_inline_save', 'saved form', stop=keys)
    one(vs + 'from_metadata', 'do_inline_load', 'loaded model', stop=keys)


def run(ctx):
    R = ctx.rule('program-sees-what-the-user-does',
        'the effects on the external program and on the adapter\'s record, '
        'and the result, equal the reference operation, on every path')
    one = setting(ctx, R)
    vs = 'venturescript.vscgpm.VsCGpm.'
    one(vs + '__init__', 'do_vs_init', 'construction')
    one(vs + 'incorporate', 'do_vs_incorporate', 'observation')
    one(vs + '_validate_incorporate', 'do_vs_recorded', 'record of a row')
    one(vs + 'unincorporate', 'do_vs_unincorporate', 'removal')
    one(vs + 'simulate', ['do_vs_simulate_each', 'do_vs_simulate'],
        'simulation',
        stop=HELPERS - {'_predict_cell', '_observe_cell', '_forget_cell'})
    one(vs + '_validate_simulate', 'do_vs_checked', 'inputs of a simulation')
    one(vs + '_observe_cell', 'do_vs_observe', 'observation of a cell')
    one(vs + '_predict_cell', 'do_vs_predict', 'prediction of a cell')
    one(vs + '_forget_cell', 'do_vs_forget', 'removal of a cell')
    one(vs + 'transition', 'do_vs_transition', 'inference')
    vs = 'venturescript.vsinline.InlineVsCGpm.'
    one(vs + '__init__', 'do_inline_init', 'construction')
    one(vs + 'logpdf', 'do_inline_logpdf', 'density')
    one(vs + 'simulate', 'do_inline_simulate', 'simulation')
    tr = 'dummy.trollnormal.TrollNormal.'
    one(tr + '__init__', 'do_troll_init', 'construction')
    one(tr + 'incorporate', 'do_troll_incorporate', 'record of a row')
    one(tr + 'unincorporate', 'do_troll_unincorporate', 'removal of a row')
