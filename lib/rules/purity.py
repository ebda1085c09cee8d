"""C05 queries leave the model unchanged; C24 operations leave the caller's
arguments unchanged."""
import ast

import core
from front import AnalysisBroken
from q import *             # noqa
from terms import *         # noqa

QUERIES = {
    'logpdf', 'simulate', 'logpdf_score', 'logpdf_likelihood',
    'logpdf_prior', 'logpdf_score_crp', 'logpdf_bulk', 'simulate_bulk',
    'logpdf_multirow', 'mutual_information', 'dependence_probability',
    'dependence_probability_pairwise', 'row_similarity',
    'row_similarity_pairwise', 'relevance_probability', 'to_metadata',
    'get_hypers', 'get_params', 'get_suffstats', 'get_distargs', 'get_state',
    'hypothetical', 'n_rows', 'n_cols', 'num_states', 'cctypes', 'distargs',
    'data_array', 'alpha', 'Nv', 'Zv', 'Nk', 'Zr', 'dim_for', 'view_for',
    'dims', 'has_output', 'name', 'is_collapsed', 'is_conditional',
    'is_continuous', 'is_numeric', 'is_composite', 'weighted_sample',
    'invoke_cgpm', 'retrieve_required_inputs', 'build_network', 'build_cgpms',
    'populate_constraints', '_populate_constraints', '_validate_cgpm_query',
    'joint_parameters', 'mvn_marginalize', 'mvn_condition',
    'calc_predictive_logp', 'calc_logpdf_marginal', 'posterior_hypers',
    'construct_hyper_grids', 'sample_parameters', 'preprocess',
    'create_aux_model', 'to_pickle',
}
# In-place library routines: position of the argument they modify.
INPLACE = {'shuffle': 0, 'fill_diagonal': 0, 'put': 0, 'place': 0,
    'copyto': 0, 'putmask': 0, 'heapify': 0, 'heappush': 0, 'heappop': 0,
    'insort': 0}
PAIRS = {'incorporate': 'unincorporate', 'unincorporate': 'incorporate',
    'append': 'pop', 'incorporate_dim': 'unincorporate_dim',
    'unincorporate_dim': 'incorporate_dim', 'pop': 'append',
    'compose_cgpm': 'decompose_cgpm', 'decompose_cgpm': 'compose_cgpm'}


def shared(t):
    """Root variable of a location that outlives the call, or None."""
    if through_rng(t):
        return None
    r = root(t)
    if r.op == 'phi':
        r = root(r.a[2]) if isinstance(r.a[2], T) else r
    if r.op == 'param' and not r.a[0].startswith('*'):
        return r
    if r.op in ('glob', 'class') and t is not r:
        return r
    return None


def given(t):
    if through_rng(t):
        return None
    r = owner(t)
    if r.op != 'param' or r is t and r.a[0].startswith('*'):
        return None
    return r


def effects(s, shared=shared):
    """(event, verb, location, detail) for each lasting effect of s."""
    for e in s.events:
        if e.kind == 'write':
            t = e.loc
            if e.op == '=' and t.op in ('item', 'attr'):
                t = t.a[0]
            if shared(e.loc if shared is not given else t) is not None:
                yield e, e.op, e.loc, tuple(e.args or ())
        elif e.kind == 'call':
            n = mname(e)
            if e.recv is not None and n in MUTATORS and not e.inlined:
                if shared(e.recv) is not None:
                    a = tuple(x for x in e.args if x is not e.recv)
                    yield e, n, e.recv, a
            if n in INPLACE and len(e.args) > INPLACE[n]:
                a = e.args[INPLACE[n]]
                if shared(a) is not None:
                    yield e, n, a, ()
            for k, v in kwd(e).items():
                if k == 'out' and shared(v) is not None:
                    yield e, 'out=', v, ()


def unbalanced(s, shared=shared):
    """Effects not undone later in the same call."""
    open_ = []
    exits = [e.seq for e in s.events if e.kind in ('return', 'raise')]
    for e, verb, loc, a in effects(s, shared):
        inv = PAIRS.get(verb)
        hit = None
        if inv:
            for o in reversed(open_):
                oe, overb, oloc, oa = o
                if overb != inv or oloc is not loc:
                    continue
                if verb in ('incorporate', 'unincorporate') and \
                        (not a or not oa or a[0] is not oa[0]):
                    continue
                if verb.endswith('_dim') and a[:1] != oa[:1]:
                    continue
                if tuple(oe.guard) != tuple(e.guard):
                    continue
                hit = o
                break
        if hit is not None:
            open_.remove(hit)
        elif verb == 'delitem' and a:
            # delete of a key stored in this same call
            for o in reversed(open_):
                oe, overb, oloc, oa = o
                if overb == '=' and oloc.op == 'item' and \
                        oloc.a[0] is loc and oloc.a[1] is a[0]:
                    hit = o
                    break
            if hit is not None:
                open_.remove(hit)
            else:
                open_.append((e, verb, loc, a))
        else:
            open_.append((e, verb, loc, a))
    return open_


def modular(f, recv, an):
    """Public queries and mutators are judged at their own definition."""
    if f.cls is not None and not f.name.startswith('_') and (
            f.name in MUTATORS or f.name in QUERIES):
        return False
    return core.default_inline(f, recv, an)


# Functions whose purpose is to update the object they are handed.
OPERANDS = {
    'View.incorporate_dim': 'dim', 'View.unincorporate_dim': 'dim',
    'cgpm.crosscat.loomcat.initialize': 'state',
    'cgpm.crosscat.loomcat.transition': 'state',
    'cgpm.crosscat.loomcat.transition_engine': 'engine',
    'cgpm.crosscat.lovecat.transition': 'state',
    'cgpm.crosscat.statedoc.load_docstrings': 'module',
    'cgpm.utils.sampling.resample_data': 'state',
}


def classes(ctx):
    base = ctx.ix.cls('cgpm.cgpm.CGpm')
    out = [c for c in ctx.ix.subclasses(base, strict=True)]
    out.append(ctx.ix.cls('cgpm.crosscat.engine.Engine'))
    out.append(ctx.ix.cls('cgpm.network.importance.ImportanceNetwork'))
    return out


# Models whose state lives in an external interpreter (labels observed there
# during a query are looked up again to be forgotten; the balance is decided
# on the interpreter's side).
EXTERNAL = {'VsCGpm'}

R1 = 'C05.query-pure'
R2 = 'C05.no-global-state'


def run(ctx):
    ctx.rule(R1, 'no location reachable from the model is written, no '
        'container of it is modified and no mutating method of a sub-model '
        'is called by a query, except in pairs that cancel (incorporate / '
        'unincorporate of the same row on the same object, append / pop)')
    ctx.rule(R2, 'module-level query helpers write nothing reachable from '
        'their arguments')
    inl = modular
    n = 0
    done = set()
    for c in classes(ctx):
        for name in sorted(QUERIES):
            f = c.lookup(name)
            if f is None or (f, c) in done:
                continue
            if f.cls is not None and f.cls.name == 'CGpm':
                continue
            done.add((f, c))
            s = ctx.summ(f, c, inline=inl)
            left = [x for x in unbalanced(s) if c.name not in EXTERNAL]
            n += 1
            construct = '%s.%s' % (c.name, name)
            if not left:
                ctx.ok(R1, construct)
                continue
            for e, verb, loc, a in left:
                r = root(loc)
                if r.op == 'param' and r is not SELF and name != 'to_pickle':
                    what = 'argument'
                else:
                    what = 'model'
                ctx.violation(R1, construct, '%s of the %s: %s %s' % (
                    'lasting modification', what, verb,
                    show(loc, limit=120)), e.at())
    ctx.require(n, 250, 'query methods')
    m = 0
    for mod in ('cgpm.crosscat.sampling', 'cgpm.mixtures.relevance',
            'cgpm.network.helpers'):
        if mod not in ctx.ix.modules:
            raise AnalysisBroken('module %s not found' % mod)
        for f in ctx.ix.modules[mod].functions.values():
            s = ctx.summ(f, None, inline=inl)
            m += 1
            left = unbalanced(s)
            if f.name == 'logpdf_assignments_marginalize_target' or \
                    f.name == 'logpdf_assignments':
                left = [x for x in left if not (x[1] in (
                    '=', 'delitem'))]
            ctx.check(not left, R2, '%s.%s' % (mod, f.name),
                'lasting modification: %s' % '; '.join(
                    '%s %s' % (v, show(l, limit=80))
                    for e, v, l, a in left), left[0][0].at() if left else '')
    ctx.require(m, 12, 'helper functions')


R3 = 'C24.args'


def run_args(ctx):
    ctx.rule(R3, 'no operation writes a location reachable from an argument '
        'passed by the caller (other than the generator)')
    inl = modular
    n = 0
    for c in ctx.ix.all_classes():
        for name, f in sorted(c.methods.items()):
            if name.startswith('_') and name != '__init__':
                continue
            s = ctx.summ(f, c, inline=inl)
            n += 1
            report_args(ctx, s, '%s.%s' % (c.name, name), f)
    for m in ctx.ix.modules.values():
        if m.name.split('.')[-1] in ('test', 'plots', 'render'):
            continue
        for f in m.functions.values():
            if f.name.startswith('_'):
                continue
            s = ctx.summ(f, None, inline=inl)
            n += 1
            report_args(ctx, s, '%s.%s' % (m.name, f.name), f)
    ctx.require(n, 300, 'operations')
    retained(ctx)


R4 = 'C24.retained'

# Objects handed over to become part of the model.
HANDED = {'dim', 'view', 'cgpm', 'cgpms'}
# Class of the parts reached through an attribute or a parameter.
PARTS = {'dims': 'Dim', 'crp': 'Dim', 'views': 'View', 'dim': 'Dim',
    'view': 'View'}


def route(t):
    """Variable a location is reached from, and the attributes ('*': an
    entry) leading to it."""
    p = []
    while True:
        if t.op == 'attr':
            p.append(t.a[1])
            t = t.a[0]
        elif t.op in ('item', 'elem', 'popped'):
            p.append('*')
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1].split(
                '@')[0] in ('values', 'itervalues', 'get', 'setdefault'):
            p.append('*')
            t = t.a[0].a[0]
        elif t.op == 'phi' and isinstance(t.a[2], T):
            t = t.a[2]
        else:
            return t, tuple(reversed(p))


def shares(v, depth=0):
    """(where in the value, parameter whose objects the value keeps)."""
    if depth > 6:
        return
    if v.op in ('ite', 'orelse'):
        for x in v.a[1 if v.op == 'ite' else 0:]:
            for r in shares(x, depth + 1):
                yield r
    elif v.op == 'call' and v.a[0].op == 'glob' and v.a[0].a[0] in \
            SHALLOW | {'collections.defaultdict'} and v.a[1]:
        for w, p in shares(v.a[1][-1], depth + 1):
            yield ('*',) + w, p
    elif v.op == 'comp' and isinstance(v.a[1], T):
        x = v.a[1]
        if v.a[0] == 'dict' and x.op == 'tuple' and len(x.a) == 2:
            x = x.a[1]
        for w, p in shares(x, depth + 1):
            yield ('*',) + w, p
    elif v.op in ('list', 'tuple', 'dict'):
        for x in v.a:
            if v.op == 'dict' and isinstance(x, tuple):
                x = x[-1]
            if isinstance(x, T):
                for w, p in shares(x, depth + 1):
                    yield ('*',) + w, p
    else:
        r = root(v)
        if r.op == 'param' and r is not SELF and not r.a[0].startswith('*') \
                and r.a[0] not in ('rng', 'prng', 'cls') and r.a[0] not in \
                HANDED:
            yield (), r.a[0]


def retained(ctx):
    ctx.rule(R4, 'an object that an operation was given and that the model '
        'keeps (not a copy) is never modified in place by a later operation')
    kept, changed = {}, []
    for c in ctx.ix.all_classes():
        if c.module.name.split('.')[-1] in ('test', 'plots', 'render'):
            continue
        seen = set()
        for k in c.mro():
            for name, f in sorted(k.methods.items()):
                if name in seen:
                    continue
                seen.add(name)
                for e in ctx.summ(f, c, inline=modular).events:
                    keep, change = touched(e)
                    for at, w, v in keep:
                        r, p = route(at)
                        if r is SELF and p:
                            for w2, prm in shares(v):
                                kept.setdefault(c.name, []).append((
                                    p + w + w2, name, prm))
                    if change is not None:
                        r, p = route(change)
                        changed.append((c.name, name, r, p, e))
    n = 0
    for cn, name, r, p, e in changed:
        if r.op != 'param':
            continue
        if r is SELF:
            owner_ = cn
        else:
            owner_ = PARTS.get(r.a[0])
        # the object itself, then its parts
        i = 0
        while i < len(p):
            for q, src, prm in kept.get(owner_, ()):
                if p[i:][:len(q)] == q:
                    ctx.violation(R4, '%s.%s@%s' % (owner_, src, prm),
                        'keeps %s of its caller as %s, which %s.%s modifies '
                        'in place' % (prm, '.'.join(q), cn, name), e.at())
            owner_ = PARTS.get(p[i])
            i += 1
            while i < len(p) and p[i] == '*':
                i += 1
        n += 1
    for cn, rows in sorted(kept.items()):
        for q, src, prm in rows:
            ctx.ok(R4, '%s.%s@%s' % (cn, src, prm))
    ctx.require(n, 100, 'in-place modifications')
    ctx.require(len(kept), 20, 'classes that keep arguments')


def touched(e):
    """What an event keeps where, and what it modifies in place."""
    if e.kind == 'write' and e.loc is not None:
        if e.op == '=':
            keep = [(e.loc, (), e.value)] if e.value is not None else []
            return keep, e.loc.a[0] if e.loc.op == 'item' else None
        keep = []
        if e.op in ('append', 'add', 'insert'):
            keep = [(e.loc, ('*',), x) for x in e.args or ()
                if isinstance(x, T)]
        elif e.op in ('update', 'extend'):
            keep = [(e.loc, (), x) for x in e.args or () if isinstance(x, T)]
            keep = [(a, ('*',), mk('item', x, NONE)) for a, w, x in keep]
        return keep, e.loc
    if e.kind == 'call' and e.recv is not None and not e.inlined and \
            mname(e) in MUTATORS:
        return [], e.recv
    return [], None


SHALLOW = {'list', 'dict', 'sorted', 'tuple', 'copy.copy', 'reversed',
    'collections.OrderedDict', 'OrderedDict'}


def owner(t):
    """Variable from which the object at t is reached, also as an element
    of a shallow copy."""
    for _ in range(20):
        t = root_once(t)
        if t.op == 'phi' and isinstance(t.a[2], T):
            t = t.a[2]
        elif t.op in ('item', 'elem') and t.a[0].op == 'comp' and \
                t.a[0].a[0] in ('list', 'dict', 'gen'):
            c = t.a[0]
            v = c.a[1]
            if c.a[0] == 'dict':
                if v.op != 'tuple' or len(v.a) != 2:
                    return t
                v = v.a[1]
            t = v
        elif t.op in ('item', 'elem') and t.a[0].op == 'call' and \
                t.a[0].a[0].op == 'glob' and t.a[0].a[0].a[0] in SHALLOW \
                and t.a[0].a[1]:
            t = mk('item', t.a[0].a[1][0], NONE)
        else:
            return t
    return t


def root_once(t):
    """Like root, but keeps the last step into a computed container."""
    while True:
        if t.op in ('item', 'elem') and (t.a[0].op == 'comp' or
                t.a[0].op == 'call' and t.a[0].a[0].op == 'glob'):
            return t
        n = root_step(t)
        if n is t:
            return t
        t = n


def root_step(t):
    if t.op in ('attr', 'item', 'elem', 'popped', 'slice'):
        return t.a[0]
    if t.op == 'call' and t.a[0].op == 'attr' and \
            t.a[0].a[1].split('@')[0] in ('values', 'itervalues',
                'items', 'iteritems', 'get', 'keys', 'setdefault'):
        return t.a[0].a[0]
    return t


def report_args(ctx, s, construct, f):
    bad = []
    for e, verb, loc, a in unbalanced(s, given):
        t = loc
        if verb == '=' and loc.op in ('item', 'attr'):
            t = loc.a[0]
        r = owner(t)
        if r.op != 'param' or r is SELF or r.a[0] in ('cls', 'rng', 'prng'):
            continue
        if OPERANDS.get(construct) == r.a[0]:
            continue
        bad.append((e, verb, loc))
    ctx.check(not bad, R3, construct, 'modifies its argument: %s' % '; '.join(
        '%s %s' % (v, show(l, limit=80)) for _, v, l in bad[:3]),
        bad[0][0].at() if bad else f.where())
