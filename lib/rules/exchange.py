"""C22: structure handed to, and taken from, external inference engines."""
from effects import *       # noqa
from rules.mixture import Kit, facts
from rules.constraint import ENGINE
import core
import lit
from front import AnalysisBroken

LOVECAT = '''
import numpy as np
from cgpm.mixtures.view import View

def meta(state):
    T, outputs = state.X, state.outputs
    cctypes, distargs = state.cctypes(), state.distargs()
    assert len(T) == len(outputs) == len(cctypes) == len(distargs)
    assert all(c in ['normal', 'categorical'] for c in cctypes)
    n = len(outputs)
    def column(o, c, d):
        if c != 'categorical':
            return {'modeltype': 'normal_inverse_gamma', 'value_to_code': {},
                'code_to_value': {}}
        values = [v for v in sorted(set(T[o])) if not np.isnan(v)]
        assert all(0 <= v < d['k'] for v in values)
        codes = ['%d' % (v,) for v in values]
        return {'modeltype': 'symmetric_dirichlet_discrete',
            'value_to_code': dict(zip(map(unicode, range(len(codes))), codes)),
            'code_to_value': dict(zip(codes, range(len(codes))))}
    names = ['c%d' % (o,) for o in outputs]
    return {
        'name_to_idx': dict(zip(names, range(n))),
        'idx_to_name': dict(zip(map(unicode, range(n)), names)),
        'column_metadata': [column(o, c, d)
            for o, c, d in zip(outputs, cctypes, distargs)]}

def table(state, M_c):
    T, cols = state.X, state.outputs
    def code(x, i):
        if np.isnan(x):
            return x
        codes = M_c['column_metadata'][i]['code_to_value']
        if not codes:
            return x
        assert unicode(int(x)) in codes
        return float(codes[unicode(int(x))])
    return [[code(T[c][r], i) for i, c in enumerate(cols)]
        for r in range(len(T[cols[0]]))]

def rows(state, M_c):
    views = sorted(set(state.Zv().values()))
    Z = [[state.views[v].Zr(r) for r in range(state.n_rows())] for v in views]
    names = [sorted(set(z)) for z in Z]
    codes = [{k: i for i, k in enumerate(n)} for n in names]
    return [[c[k] for k in z] for c, z in zip(codes, Z)]

def structure(state, M_c, X_D):
    def numeric(i, h):
        assert state.cctypes()[i] != 'categorical'
        return {'fixed': 0.0, 'mu': h['m'], 'nu': h['nu'], 'r': h['r'],
            's': h['s']}
    def nominal(i, h):
        assert state.cctypes()[i] == 'categorical'
        K = len(M_c['column_metadata'][i]['code_to_value'])
        assert K > 0
        return {'fixed': 0.0, 'dirichlet_alpha': h['alpha'], 'K': K}
    hypers = [numeric(i, state.dims()[i].hypers) if t != 'categorical'
        else nominal(i, state.dims()[i].hypers)
        for i, t in enumerate(state.cctypes())]
    views = sorted(set(state.Zv().values()))
    code = {v: i for i, v in enumerate(views)}
    Z = [code[state.Zv(o)] for o in state.outputs]
    counts = list(np.bincount(Z))
    assert 0 not in counts
    def one(v):
        view = state.views[v]
        z = X_D[code[v]]
        n = list(np.bincount(z))
        assert 0 not in n
        return {
            'column_component_suffstats': [
                [{} for _k in range(len(set(z)))] for _d in view.dims],
            'column_names': ['c%d' % (o,) for o in view.outputs[1:]],
            'row_partition_model': {'counts': n,
                'hypers': {'alpha': view.alpha()}}}
    at = lambda block: [state.outputs.index(c) for c in block]
    ensure = {}
    if state.Cd:
        blocks = [at(block) for block in state.Cd]
        ensure['dependent'] = {str(c): list(b) for b in blocks for c in b}
    if state.Ci:
        from crosscat.utils.general_utils import get_scc_from_tuples
        pairs = [tuple(at(pair)) for pair in state.Ci]
        ensure['independent'] = {str(c): list(b)
            for c, b in get_scc_from_tuples(pairs).iteritems()}
    return {'column_hypers': hypers,
        'column_partition': {'assignments': Z, 'counts': counts,
            'hypers': {'alpha': state.alpha()}},
        'view_state': [one(v) for v in views],
        'col_ensure': ensure}

def update(state, M_c, X_L, X_D):
    first = max(state.views) + 1
    state.crp.set_hypers(
        {'alpha': X_L['column_partition']['hypers']['alpha']})
    for i in range(len(X_D)):
        state._append_view(View(state.X,
            outputs=[state.crp_id_view + i + first], Zr=X_D[i],
            alpha=X_L['view_state'][i]['row_partition_model']['hypers'][
                'alpha'], rng=state.rng), i + first)
    for i, c in enumerate(state.outputs):
        state._migrate_dim(state.Zv(c),
            X_L['column_partition']['assignments'][i] + first,
            state.dim_for(c))

def diagnostics(state, diagnostics):
    log = state.diagnostics
    log['logscore'].extend(map(float, np.ravel(
        diagnostics.get('logscore', np.array([]))).tolist()))
    log['column_crp_alpha'].extend(list(map(float, np.ravel(
        diagnostics.get('column_crp_alpha', [])).tolist())))
    Z = diagnostics.get('column_partition_assignments', [])
    if len(Z) > 0:
        assert len(Z) == len(state.outputs)
        log['column_partition'].extend(
            [[(c, int(z)) for c, z in zip(state.outputs, zs)]
                for zs in np.transpose(Z)[0].tolist()])

def transition(state, N=None, S=None, kernels=None, rowids=None, cols=None,
        seed=None, checkpoint=None, progress=None):
    from cgpm.crosscat.lovecat import _crosscat_M_c, _crosscat_T, \\
        _crosscat_X_D, _crosscat_X_L, _update_state, _update_diagnostics, \\
        _progress
    from crosscat.LocalEngine import LocalEngine
    if seed is None:
        seed = 1
    steps = N if N is not None else 1 if S is None else 150000
    seconds = -1 if S is None else S
    M_c = _crosscat_M_c(state)
    T = _crosscat_T(state, M_c)
    X_D = _crosscat_X_D(state, M_c)
    X_L = _crosscat_X_L(state, M_c, X_D)
    if progress is None or progress:
        progress = _progress
    c = () if cols is None else [state.outputs.index(i) for i in cols]
    r = () if rowids is None else rowids
    k = () if kernels is None else kernels
    LE = LocalEngine(seed=seed)
    if checkpoint is None:
        X_L, X_D = LE.analyze(M_c, T, X_L, X_D, seed, kernel_list=k,
            n_steps=steps, max_time=seconds, c=c, r=r, progress=progress)
        log = dict()
    else:
        X_L, X_D, log = LE.analyze(M_c, T, X_L, X_D, seed, kernel_list=k,
            n_steps=steps, max_time=seconds, c=c, r=r, do_diagnostics=True,
            diagnostics_every_N=checkpoint, progress=progress)
    _update_state(state, M_c, X_L, X_D)
    if log:
        _update_diagnostics(state, log)
'''

LOOM = '''
import csv
import itertools
import os
import loom.cleanse
import loom.tasks
import pandas as pd
from distributions.io.stream import json_load
from distributions.io.stream import open_compressed
from loom.cFormat import assignment_stream_load
from cgpm.mixtures.view import View
from cgpm.utils import config as cu
from cgpm.utils.parallel_map import parallel_map
from cgpm.crosscat.loomcat import _loom_cross_cat, _validate_transition, \\
    _retrieve_column_partition, _retrieve_featureid_to_cgpm, \\
    _retrieve_row_partitions, _generate_column_names, \\
    _generate_loom_stattypes, initialize, _update_state, _update_state_mp, \\
    _write_dataset, _write_schema, _retrieve_loom_store, \\
    _generate_project_paths, DEFAULT_LOOM_STORE
from cgpm.utils.config import cctype_loom_lookup

def names(state):
    return ['c%05d' % (i,) for i in state.outputs]

def types(state):
    return [cu.loom_stattype(s, d)
        for s, d in zip(state.cctypes(), state.distargs())]

def columns(path, sample):
    kinds = _loom_cross_cat(path, sample).kinds
    return {f: k for k, kind in enumerate(kinds) for f in kind.featureids}

def columns_b(path, sample):
    return dict(itertools.chain.from_iterable([
        [(f, k) for f in kind.featureids]
        for k, kind in enumerate(_loom_cross_cat(path, sample).kinds)]))

def features(path):
    fs = json_load(os.path.join(path, 'ingest', 'encoding.json.gz'))
    return {i: int(f['name'].replace('c', '')) for i, f in enumerate(fs)}

def rows(path, sample):
    n = len(_loom_cross_cat(path, sample).kinds)
    z = {a.rowid: [a.groupids(k) for k in range(n)]
        for a in assignment_stream_load(os.path.join(path, 'samples',
            'sample.%d' % (sample,), 'assign.pbs.gz'))}
    ids = sorted(z)
    return {k: [z[i][k] for i in ids] for k in range(n)}

def update(state, path, sample):
    raw = _retrieve_column_partition(path, sample)
    names = _retrieve_featureid_to_cgpm(path)
    Zv = {names[f]: raw[f] for f in raw}
    Zr = _retrieve_row_partitions(path, sample)
    first = max(state.views) + 1
    for v in sorted(set(Zr.keys())):
        state._append_view(View(state.X,
            outputs=[state.crp_id_view + v + first], Zr=Zr[v],
            rng=state.rng), v + first)
    for c in state.outputs:
        state._migrate_dim(state.Zv(c), Zv[c] + first, state.dim_for(c),
            reassign=True)
    return state

def dataset(state, path):
    d = pd.DataFrame([state.X[i] for i in state.outputs]).T
    assert d.shape == (state.n_rows(), state.n_cols())
    d.columns = _generate_column_names(state)
    for c in d.columns:
        if all(d[c] == d[c] // 1):
            d[c] = d[c].astype(int)
    d.to_csv(path, na_rep='', index=False)

def schema(state, path):
    names = _generate_column_names(state)
    types = _generate_loom_stattypes(state)
    with open(path, 'wb') as f:
        w = csv.writer(f, delimiter=',', quoting=csv.QUOTE_MINIMAL)
        w.writerow(['Feature Name', 'Type'])
        w.writerows(zip(names, types))

def validate(N=None, S=None, kernels=None, seed=None, checkpoint=None,
        progress=None):
    for x in (S, kernels, progress, checkpoint):
        if x is not None:
            raise ValueError()

def stattype(cctype, distargs):
    if cctype == 'categorical' and distargs['k'] > 256:
        cctype = 'crp'
    try:
        return cctype_loom_lookup[cctype]
    except KeyError:
        raise ValueError()

def stattype_b(cctype, distargs):
    if cctype == 'categorical' and distargs['k'] > 256:
        cctype = 'crp'
    if cctype not in cctype_loom_lookup:
        raise ValueError()
    return cctype_loom_lookup[cctype]

def store():
    if os.environ.get('CGPM_LOOM_STORE'):
        return os.environ['CGPM_LOOM_STORE']
    if not os.path.exists(DEFAULT_LOOM_STORE):
        os.makedirs(DEFAULT_LOOM_STORE)
    return DEFAULT_LOOM_STORE

def project(name=None):
    root = os.path.join(_retrieve_loom_store(),
        cu.timestamp() if name is None else name)
    paths = {'root': root, 'raw': os.path.join(root, 'raw'),
        'cleansed': os.path.join(root, 'cleansed'),
        'results': os.path.join(root, 'results')}
    for p in paths.values():
        if not os.path.exists(p):
            os.makedirs(p)
    return paths

def setup(state):
    paths = _generate_project_paths()
    data = os.path.join(paths['raw'], 'data.csv')
    schema = os.path.join(paths['raw'], 'schema.csv')
    _write_dataset(state, data)
    _write_schema(state, schema)
    loom.cleanse.force_ascii(data,
        os.path.join(paths['cleansed'], 'data.csv.gz'))
    loom.tasks.transform(paths['results'], schema, paths['cleansed'])
    loom.tasks.ingest(paths['results'])
    return paths

def transition(state, N=None, S=None, kernels=None, seed=None,
        checkpoint=None, progress=None):
    _validate_transition(N=N, S=S, kernels=kernels, seed=seed,
        checkpoint=checkpoint, progress=progress)
    if state._loom_path is None:
        state._loom_path = initialize(state)
    sample = 0 if seed is None else seed
    loom.tasks.infer_one(state._loom_path['results'], seed=sample,
        config={'schedule': {'extra_passes': 1 if N is None else N}})
    _update_state(state, state._loom_path['results'], sample)

def engine(engine, N=None, S=None, kernels=None, seed=None, checkpoint=None,
        progress=None):
    _validate_transition(N=N, S=S, kernels=kernels, seed=seed,
        checkpoint=checkpoint, progress=progress)
    if engine.states[0]._loom_path is None:
        p = initialize(engine.states[0])
        for s in engine.states:
            s._loom_path = p
    loom.tasks.infer(engine.states[0]._loom_path['results'],
        sample_count=engine.num_states(),
        config={'schedule': {'extra_passes': 1 if N is None else N}})
    engine.states = parallel_map(_update_state_mp, [
        (engine.states[i], engine.states[i]._loom_path['results'], i)
        for i in range(engine.num_states())])
    engine.transition(N=int(len(engine.states[0].outputs)**.5),
        kernels=['column_hypers', 'column_params', 'alpha', 'view_alphas'])
'''


def plain(t):
    """Text, whatever its encoding."""
    if t.op == 'glob' and t.a[0] in ('unicode',):
        return mk('glob', 'str')
    return None


def run(ctx):
    L = 'crosscat.lovecat.'
    k = Kit(ctx, 'lovecat', LOVECAT, 'lovecat')
    ctx.rule('lovecat', 'columns, rows, groups and codes are exported by '
        'position, and the answer is read back by the same positions')
    pt = {'state': 'crosscat.state.State'}
    for n, r in (('_crosscat_M_c', 'meta'), ('_crosscat_T', 'table'),
            ('_crosscat_X_D', 'rows'), ('_crosscat_X_L', 'structure'),
            ('_update_diagnostics', 'diagnostics')):
        k.fun(L + n, r, 'exchange of %s' % r, stop=STOP, rejects=False,
            rewrite=plain)
    k.fun(L + '_update_state', 'update', 'reading a state back', stop=STOP,
        rejects=False, rewrite=plain)
    transitions(ctx)
    M = 'crosscat.loomcat.'
    k = Kit(ctx, 'loom', LOOM, 'loom')
    ctx.rule('loom', 'columns are named by their number, rows are in order, '
        'and the answer is read back through the names and in row order')
    for n, r in (('_generate_column_names', 'names'),
            ('_generate_loom_stattypes', 'types'),
            ('_retrieve_column_partition', ['columns', 'columns_b']),
            ('_retrieve_featureid_to_cgpm', 'features'),
            ('_retrieve_row_partitions', 'rows'),
            ('_update_state', 'update'), ('_write_dataset', 'dataset'),
            ('_write_schema', 'schema')):
        k.fun(M + n, r, 'exchange (%s)' % n.strip('_'), stop=STOP,
            rejects=False, rewrite=plain)
    more = ('_write_dataset', '_write_schema', '_generate_project_paths',
        '_retrieve_loom_store', 'timestamp')
    for n, r in (('initialize', 'setup'),
            ('_generate_project_paths', 'project'),
            ('_retrieve_loom_store', 'store')):
        k.fun(M + n, r, 'exchange (%s)' % n.strip('_'),
            stop=STOP + tuple(x for x in more if x != n), rejects=False,
            rewrite=plain)
    name = 'cgpm.utils.config.' + loom_table(ctx)[0]

    def table(t):
        if t.op == 'glob' and t.a[0] == name:
            return mk('glob', 'cgpm.utils.config.cctype_loom_lookup')
        return plain(t)
    k.fun('utils.config.loom_stattype', ['stattype', 'stattype_b'],
        'type of a column', stop=('timestamp',), rewrite=table)
    holds(ctx)
    ctx.require(len(ctx.obl), 15, 'exchanges')


# What a column of each type may contain; k is a declared number of levels.
LEVELS = {'bernoulli': 2, 'categorical': 'k', 'crp': 'naturals',
    'poisson': 'naturals', 'geometric': 'naturals'}
HOLDS = {'boolean': [2], 'categorical': [2, 'k'],
    'unbounded_categorical': [2, 'k', 'naturals'],
    'count': [2, 'k', 'naturals'], 'real': [2, 'k', 'naturals', 'reals']}


def loom_table(ctx):
    """Name and value of the table from types to external types."""
    m = ctx.ix.modules['cgpm.utils.config']
    for n in m.consts:
        try:
            v = lit.const(m, n)
        except lit.Unknown:
            continue
        if isinstance(v, dict) and 'boolean' in list(v.values()):
            return n, v
    raise AnalysisBroken('no table of external types found')


def holds(ctx):
    ctx.rule('loom-type', 'the external type of a column holds every value '
        'the column may have')
    table = loom_table(ctx)[1]
    for c in sorted(table):
        ctx.check(LEVELS.get(c, 'reals') in HOLDS.get(table[c], []),
            'loom-type', c, 'a column of type %s may have values that %s '
            'does not hold' % (c, table[c]), 'src/utils/config.py')
    ctx.require(len(table), 5, 'external types')


def transitions(ctx):
    """The work asked of an external engine is the work it is given."""
    ctx.rule('external', 'an external engine is given the requested steps, '
        'seconds, columns, rows and seed, and its answer is read back')
    k = Kit(ctx, 'external', LOVECAT, 'lovecat')
    k.fun('crosscat.lovecat.transition', 'transition', 'running lovecat',
        stop=STOP + ('_crosscat_M_c', '_crosscat_T', '_crosscat_X_D',
        '_crosscat_X_L', '_update_diagnostics', '_progress'), rejects=False,
        rewrite=plain)
    k = Kit(ctx, 'external', LOOM, 'loom')
    M = 'crosscat.loomcat.'
    k.fun(M + '_validate_transition', 'validate', 'checking the request')
    k.fun(M + 'transition', 'transition', 'running loom', stop=STOP,
        rejects=False, rewrite=plain)
    k.fun(M + 'transition_engine', 'engine', 'running loom on an engine',
        stop=STOP + ('num_states', 'transition'), rejects=False,
        rewrite=plain)


def ensure(ctx, rule):
    """The constraints a state hands to lovecat."""
    k = Kit(ctx, rule, LOVECAT, 'lovecat')

    def only(t):
        if t.op == 'dict':
            for x in t.a:
                if x[0] == const('col_ensure') and len(t.a) > 1:
                    return mk('dict', x)
        return plain(t)
    k.fun('crosscat.lovecat._crosscat_X_L', 'structure', 'exported '
        'constraints', stop=STOP, rejects=False, rewrite=only)


STOP = ('cctypes', 'distargs', 'dims', 'Zv', 'Zr', 'n_rows', 'n_cols',
    'alpha', 'dim_for', '_loom_cross_cat', '_append_view', '_migrate_dim',
    '_retrieve_column_partition', '_retrieve_featureid_to_cgpm',
    '_retrieve_row_partitions', '_generate_column_names',
    '_generate_loom_stattypes', 'initialize', '_update_state',
    '_update_state_mp', '_validate_transition', 'loom_stattype',
    'parallel_map')
