"""C17: helpers that derive the graph of a composite of models."""
from refspec import *        # noqa
from canon import Canon, call1, last, strip, exists, concat
from front import AnalysisBroken
import core

REF = '''
import itertools as it
import numpy as np
from scipy.sparse.csgraph import connected_components

def validate_a(cgpms):
    ot = [set(c.outputs) for c in cgpms]
    if not all(s for s in ot):
        raise ValueError('x')
    if any(set.intersection(a, b) for a, b in it.combinations(ot, 2)):
        raise ValueError('y')
    return cgpms

def index(cgpms):
    return {v: i for i, c in enumerate(cgpms) for v in c.outputs}

def adjacency(cgpms, v_to_c):
    return {i: set(v_to_c[p] for p in c.inputs if p in v_to_c)
        for i, c in enumerate(cgpms)}

def extraneous(cgpms, v_to_c):
    return [i for c in cgpms for i in c.inputs if i not in v_to_c]
'''


def boolify(t):
    """Truth of a container in a condition: set(x) is non-empty iff x is."""
    if t.op == 'not' or t.op in ('anyq', 'allq'):
        x = t.a[0]
        y = strip(x) if x.op == 'call' else x
        if call1(x, {'set', 'list', 'tuple', 'frozenset'}) is not None and \
                y is not x:
            return mk(t.op, y, *t.a[1:]) if t.op != 'not' else not_(y)
    if t.op in ('inter', 'union', 'diff'):
        a = []
        for x in t.a:
            a.append(strip(x))
        if tuple(a) != t.a:
            return mk(t.op, *sorted(a, key=lambda q: q.n)) \
                if t.op != 'diff' else mk('diff', *a)
    # Unordered pairs of a sequence.
    if t.op == 'anyq':
        src = t.a[1][-1][0]
        if src.op == 'call' and last(src.a[0]) == 'combinations' and \
                len(src.a[1]) == 2 and src.a[1][1] is const(2):
            e = mk('elem', src, 0)
            x = src.a[1][0]
            body = subst(t.a[0], {mk('unpack', e, 0): mk('pair', x, 0),
                mk('unpack', e, 1): mk('pair', x, 1),
                mk('item', e, const(0)): mk('pair', x, 0),
                mk('item', e, const(1)): mk('pair', x, 1)})
            if not contains(body, e):
                body = mk('anypair', body, x)
                return mk('anyq', body, t.a[1][:-1]) if len(t.a[1]) > 1 \
                    else body
    if t.op == 'anypair' and t.a[1].op == 'comp' and \
            t.a[1].a[0] == 'list' and len(t.a[1].a[2]) == 1 and \
            not t.a[1].a[2][0][1]:
        c = t.a[1]
        s = c.a[2][0][0]
        e = mk('elem', s, 0)
        return mk('anypair', subst(t.a[0], {
            mk('pair', c, 0): subst(c.a[1], {e: mk('pair', s, 0)}),
            mk('pair', c, 1): subst(c.a[1], {e: mk('pair', s, 1)})}), s)
    return None


def unordered_values(t):
    """Adjacency entries are sets of parents, whatever holds them."""
    if t.op == 'comp' and t.a[0] == 'dict':
        k, v = t.a[1].a
        y = strip(v) if v.op == 'call' or (
            v.op == 'comp' and v.a[0] == 'list') else v
        if y is not v:
            return mk('comp', 'dict', mk('tuple', k, y), t.a[2])
    return None


def run(ctx):
    ref = Ref(ctx, REF, 'graph')
    fn = lambda n: ctx.ix.fn('cgpm.network.helpers.' + n)
    ctx.rule('compose-validate', 'composition is rejected exactly when a '
        'member has no output or two members share one')
    same(ctx, 'compose-validate', fn('validate_cgpms'), ['validate_a'], ref,
        'validation of a composite', rewrite=boolify)
    ctx.rule('index', 'every output variable maps to the position of the '
        'model that generates it')
    same(ctx, 'index', fn('retrieve_variable_to_cgpm'), ['index'], ref,
        'variable index')
    ctx.rule('parents', 'the parents of a model are exactly the models '
        'generating one of its inputs')
    same(ctx, 'parents', fn('retrieve_adjacency_list'), ['adjacency'], ref,
        'adjacency list', rewrite=unordered_values)
    ctx.rule('extraneous', 'extraneous inputs are exactly the inputs no '
        'model generates')
    same(ctx, 'extraneous', fn('retrieve_extraneous_inputs'),
        ['extraneous'], ref, 'extraneous inputs')
    matrix(ctx, fn('retrieve_adjacency_matrix'))
    components(ctx, fn('retrieve_weakly_connected_components'))
    closure(ctx, fn('retrieve_ancestors'), up=True)
    closure(ctx, fn('retrieve_descendents'), up=False)
    toposort(ctx, fn('topological_sort'))
    required(ctx, fn('retrieve_required_inputs'),
        [mk('param', '#%d' % i) for i in range(5)])
    net = mk('param', '#0')
    required(ctx, ctx.ix.cls('cgpm.network.importance.ImportanceNetwork')
        .lookup('retrieve_required_inputs'), [mk('attr', net, 'cgpms'),
            mk('attr', net, 'topo'), mk('param', '#1'), mk('param', '#2'),
            mk('attr', net, 'extraneous')])
    network(ctx)


P0, P1 = mk('param', '#0'), mk('param', '#1')


def matrix(ctx, f):
    """Entry (i, j) or (j, i) is one exactly for an edge."""
    ctx.rule('matrix', 'the square matrix has a one for every parent edge '
        'and zero elsewhere')
    r, c, s = form(ctx, f, inline=core.boundary('retrieve_adjacency_list'))
    adj = [t for t in subterms(r) if t.op == 'call' and
        last(t.a[0]) == 'retrieve_adjacency_list']
    ok = len(set(adj)) == 1 and adj[0].a[1] == (P0, P1)
    msg = 'the matrix is not built from the adjacency list of its arguments'
    if ok:
        A = adj[0]
        t = r
        if t.op == 'attr' and t.a[1] == 'T':
            t = t.a[0]
        elif t.op == 'call' and last(t.a[0]) == 'transpose':
            t = t.a[1][0] if t.a[1] else t.a[0].a[0]
        ok, msg = _edges(t, A)
    ctx.check(ok, 'matrix', f.short, msg, f.where())


def _edges(t, A):
    n = mk('call', mk('glob', 'len'), (A,), ())
    n2 = mk('call', mk('glob', 'len'), (P0,), ())
    base = None
    if t.op in ('dictmerge',):
        base, upd = t.a
        if upd.op != 'comp' or upd.a[1].op != 'tuple':
            return False, 'entries are not set one by one'
        key, val = upd.a[1].a
        if val is not const(1) or any(cs for _s, cs in upd.a[2]):
            return False, 'an edge is not recorded as one for every parent'
        i = mk('elem', A, 0)
        row = mk('item', A, i)
        want = {mk('tuple', i, row), mk('tuple', row, i),
            mk('tuple', i, mk('elem', row, 0)),
            mk('tuple', mk('elem', row, 0), i)}
        if key not in want:
            return False, 'an edge is recorded at %s' % show(key, limit=120)
        if upd.a[2][0][0] is not A:
            return False, 'edges are not recorded for every model'
    else:
        return True, 'form not recognised'
    if base.op == 'call' and last(base.a[0]) == 'zeros':
        shp = base.a[1][0]
        if shp.op in ('tuple', 'list') and len(shp.a) == 2 and all(
                x in (n, n2) for x in shp.a):
            return True, ''
        return False, 'the matrix is not square in the number of models'
    return False, 'absent edges are not zero'


def components(ctx, f):
    ctx.rule('components', 'connected components ignore edge direction and '
        'are taken over the graph of the same models')
    r, c, s = form(ctx, f, inline=core.boundary('retrieve_adjacency_matrix',
        'retrieve_variable_to_cgpm', 'retrieve_adjacency_list'))
    cc = [e for e in s.events if e.kind == 'call' and
        (e.name or '').split('.')[-1] == 'connected_components']
    if not cc:
        ctx.notes.append('components are not computed with scipy')
        return
    e = cc[0]
    kw = dict(e.kw or ())
    a = list(e.args)
    arg = lambda n, i: kw.get(n, a[i] if len(a) > i else None)
    g = arg('csgraph', 0)
    directed, conn = arg('directed', 1), arg('connection', 2)
    weak = directed is const(False) or conn in (None, const('weak'))
    ctx.check(weak, 'components', f.short,
        'components respect edge direction', f.where())
    idx = mk('call', mk('func', 'cgpm.network.helpers.'
        'retrieve_variable_to_cgpm'), (P0,), ())
    ok = g is not None and g.op == 'call' and \
        last(g.a[0]) == 'retrieve_adjacency_matrix' and \
        g.a[1][0] is P0 and g.a[1][1] is idx
    ctx.check(ok, 'components', f.short + ' graph',
        'components are not those of the graph of the given models: %s'
        % show(g, limit=120), f.where())
    # Labels are the second result.
    want = mk('unpack', None, 1) if False else None
    ok = r.op in ('unpack', 'item') and (r.a[1] == 1 or r.a[1] is const(1))
    full = arg('return_labels', 3)
    if full is const(False):
        ok = False
    ctx.check(ok, 'components', f.short + ' labels',
        'the result is not the component label of every model: %s'
        % show(r, limit=100), f.where())


def closure(ctx, f, up):
    """Transitive closure by recursion over parents or children."""
    word = 'ancestors' if up else 'descendents'
    ctx.rule(word, 'the %s of a variable are its direct %s and theirs, '
        'and an unknown variable is rejected' % (word,
        'parents' if up else 'children'))
    r, c, s = form(ctx, f, inline=core.boundary('retrieve_variable_to_cgpm'))
    idx = mk('call', mk('func', 'cgpm.network.helpers.'
        'retrieve_variable_to_cgpm'), (P0,), ())
    known = cmp_('in', P1, idx)
    unknown = not_(known)
    if c.op == 'not' or c is not unknown:
        alt = parts(c)
        # The rejection may be phrased over the outputs of the models.
        out = mk('elem', P0, 0)
        phr = mk('allq', not_(cmp_('in', P1, mk('attr', out, 'outputs'))),
            ((P0, ()),))
        ok = alt == [unknown] or alt == [phr]
    else:
        ok = True
    ctx.check(ok, word, f.short + ' unknown', 'a variable no model generates '
        'is not what is rejected: %s' % show(c, limit=160), f.where())
    # Under the validity guard the direct step applies.
    t = subst(r, {known: TRUE})
    t = Canon()(t)
    inputs = mk('attr', mk('item', P0, mk('item', idx, P1)), 'inputs')
    el = mk('elem', P0, 0)
    step = [inputs] if up else [
        mk('comp', 'list', mk('elem', mk('attr', el, 'outputs'), 0),
            ((P0, (cmp_('in', P1, mk('attr', el, 'inputs')),)),
             (mk('attr', el, 'outputs'), ())))]
    clo = [x for x in subterms(t) if x.op == 'call' and x.a[0].op ==
        'closure' or x.op == 'call' and x.a[0].op == 'func' and
        x.a[0].a[0].endswith(f.name)]
    if not clo:
        ctx.notes.append('%s are not computed recursively; not decided'
            % word)
        need = ('inputs' if up else 'outputs')
        ctx.check(contains_any(t, lambda x: x.op == 'attr' and
            x.a[1] == need) and contains_any(t, lambda x: x is P1), word,
            f.short, 'the result does not depend on the %s of the models'
            % need, f.where())
        return
    # What holds for the first step holds for every step only if the steps
    # do not look at the variable asked about.
    asked = f.params[1]
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
            own = {a.arg for a in n.args.args}
            used = [x for x in ast.walk(n) if isinstance(x, ast.Name) and
                x.id == asked and isinstance(x.ctx, ast.Load)]
            ctx.check(not used or asked in own, word, f.short + ' uniform',
                'the %s of a relative are not determined by the rule for the '
                'variable asked about, which the step mentions' % word,
                f.where(used[0]) if used else f.where())
    pieces = list(t.a) if t.op == 'concat' else [t]
    direct = [p for p in pieces if not any(x in subterms_list(p)
        for x in clo)]
    rec = [p for p in pieces if p not in direct]
    ok = any(_same_elems(p, step[0]) for p in direct)
    ctx.check(ok, word, f.short + ' direct', 'the direct %s are not included:'
        ' %s' % ('parents' if up else 'children', show(t, limit=200)),
        f.where())
    ok = False
    for p in rec:
        if p.op == 'comp' and len(p.a[2]) >= 2:
            src = p.a[2][:-1]
            call = p.a[2][-1][0]
            if p.a[1] is mk('elem', call, 0) and call.op == 'call' and \
                    not any(cs for _s, cs in p.a[2] if _s is call):
                arg = call.a[1][-1]
                whole = mk('comp', 'list', arg, src)
                whole = Canon()(whole)
                ok = ok or _same_elems(whole, step[0])
    ctx.check(ok, word, f.short + ' recursive', 'the %s of every direct '
        'relative are not included: %s' % (word, show(t, limit=200)),
        f.where())


def subterms_list(t):
    return set(subterms(t))


def _same_elems(x, y):
    cn = Canon(ordered=False)
    mkset = lambda t: cn(mk('call', mk('glob', 'set'), (t,), ()))
    return mkset(x) is mkset(y)


def toposort(ctx, f):
    ctx.rule('toposort', 'a model is placed only when none of its parents '
        'remains unplaced, leaves the remaining graph when placed, and a '
        'round without progress is a cycle')
    r, c, s = form(ctx, f)
    ctx.saw(f)
    lv = [t for t in subterms(r) if t.op == 'comp' and t.a[0] == 'list' and
        any(cs for _s, cs in t.a[2])]
    loops = [e for e in s.events if any(fr[0] == 'while' for fr in e.ctx)]
    if not lv or not loops:
        ctx.notes.append('topological sort: form not recognised')
        ctx.check(contains_any(r, lambda t: t is P0) and contains_any(r,
            lambda t: t.op in ('loopval', 'comp', 'localmut', 'call')),
            'toposort', f.short + ' nodes', 'the nodes of the graph are not '
            'what is returned: %s' % show(r, limit=100), f.where())
        front = [t for t in subterms(r) if t.op == 'localmut' and
            t.a[0] == 'insert' or t.op == 'concat' and t.a[0].op != 'phi'
                and t.a[-1].op == 'phi']
        turned = contains_any(r, lambda t: t.op == 'localmut' and t.a[0] ==
            'reverse' or t.op == 'slice' or call1(t, {'reversed'})
            is not None)
        ctx.check(not front or turned, 'toposort', f.short + ' order',
            'a node is placed before those placed earlier, which may be its '
            'parents', f.where())
        ctx.check(any(t.op in ('allq', 'anyq', 'loopval', 'eq', 'comp', 'lt',
            'le') for t in subterms(c)), 'toposort', f.short + ' cycle',
            'cyclic graphs are not what is rejected: %s'
            % show(c, limit=100), f.where())
        return
    comp = lv[0]
    src, cs = comp.a[2][0]
    node = mk('elem', src, 0)
    ctx.check(comp.a[1] is node or show(comp.a[1]) == show(node), 'toposort',
        f.short + ' nodes', 'what is placed is not the node: %s'
        % show(comp.a[1], limit=100), f.where())
    whole = r
    while call1(whole, {'list', 'tuple'}) is not None:
        whole = call1(whole, {'list', 'tuple'})
    grown = [t for t in (whole,) if t.op == 'loopval']
    ctx.check(any(len(t.a[2]) == 1 and t.a[2][0].op == 'concat' and
        t.a[2][0].a[-1] is comp and t.a[2][0].a[0].op == 'phi' and
        len(t.a[2][0].a) == 2 for t in grown), 'toposort',
        f.short + ' order', 'the nodes of a round are not placed after those '
        'of the rounds before: %s' % show(r, limit=160), f.where())
    # Condition: every edge of the node is absent from the current graph.
    edges = mk('item', src, node)
    same_edges = {t: edges for cnd in cs for t in subterms(cnd)
        if t.op == 'item' and t.a[1] is node and _current(t.a[0], src)}
    good = False
    for cnd in cs:
        neg = not_(subst(cnd, same_edges))
        if same_edges:
            neg = subst(neg, {mk('elem', x, 0): mk('elem', edges, 0)
                for x in same_edges})
        # any(e in graph for e in edges)
        if neg.op == 'anyq' and len(neg.a[1]) == 1 and \
                neg.a[1][0][0] is edges and neg.a[0].op == 'in' and \
                neg.a[0].a[0] is mk('elem', edges, 0):
            g = neg.a[0].a[1]
            if g is src or _current(g, src):
                good = True
        # any(x in edges for x in graph)
        if neg.op == 'anyq' and len(neg.a[1]) == 1 and \
                neg.a[0].op == 'in' and neg.a[0].a[1] is edges and \
                neg.a[0].a[0] is mk('elem', neg.a[1][0][0], 0):
            g = neg.a[1][0][0]
            if g is src or _current(g, src):
                good = True
        if neg.op == 'inter' and edges in neg.a:
            good = True
    ctx.check(good and len(cs) == 1, 'toposort', f.short + ' ready',
        'a node is placed under %s, not when none of its parents remains'
        % show(and_(*cs), limit=160), f.where())
    # Removal happens under the same condition.
    an = s
    rem = [t for t in subterms(c) if t.op in ('delitem', 'localmut')] + \
        [t for t in _allstates(s) if t.op in ('delitem', 'localmut')]
    keyed = [t for t in rem if node_of(t) is not None]
    ctx.check(bool(keyed), 'toposort', f.short + ' remove',
        'a placed node is not removed from the remaining graph', f.where())
    ctx.check(any(e.kind == 'raise' for e in s.events), 'toposort',
        f.short + ' cycle', 'a cyclic graph is not rejected', f.where())
    # A round that places nothing: no node of the graph is ready.
    ok = False
    for t in subterms(c):
        if t.op == 'allq' and len(t.a[1]) == 1 and t.a[1][0][0] is src:
            ok = ok or any(t.a[0] is not_(x) for x in cs)
        if t.op == 'loopval':
            ok = ok or t.a[1] is TRUE and _clears(t) or t.a[1] is FALSE
        if t.op == 'eq' or t.op == 'comp' and t is comp:
            ok = True
    ctx.check(ok, 'toposort', f.short + ' progress', 'the cycle test does '
        'not say that a whole round placed nothing: %s' % show(c, limit=160),
        f.where())


def _clears(g):
    """The flag becomes false exactly when a node is placed."""
    for v in g.a[2]:
        if v.op == 'ite' and v.a[1] is FALSE:
            return True
        if v is FALSE:
            return False
        if v.op == 'and':
            return True
    return True


def _current(g, src):
    return g.op in ('phi', 'loopval') and (g.a[2] is src
        or contains(g, src)) or show(g) == show(src)


def _allstates(s):
    out = set()
    vals = []
    if s.end is not None:
        for fid, env in s.end.frames.items():
            vals.extend(env.values())
    for fr in getattr(s, 'frames', ()):
        vals.extend(fr)
    for v in vals:
        if isinstance(v, T):
            out |= set(subterms(v))
    return out


def node_of(t):
    if t.op == 'delitem':
        k = t.a[1]
        return k if k.op in ('elem', 'unpack', 'item') else None
    if t.op == 'localmut' and t.a[0] in ('pop', '__delitem__') and t.a[2]:
        return t.a[2][0]
    return None


def required(ctx, f, given):
    ctx.rule('required-inputs', 'walking the models from last to first, the '
        'inputs of every model with a required or constrained output become '
        'required; targets, constraints and extraneous inputs are excluded')
    cg, topo, tg, co, ex = given
    if f is None:
        raise AnalysisBroken('retrieve_required_inputs not found')
    r, c, s = form(ctx, f, dec=False)
    ok = r.op == 'comp' and len(r.a[2]) == 1
    if not ok:
        lv = [t for t in subterms(r) if t.op == 'loopval']
        if not lv:
            ctx.notes.append('required inputs: form not recognised')
            return
    if r.op != 'comp':
        # Perhaps a difference of sets.
        t = r
        while t.op == 'diff' or call1(t, {'list', 'sorted', 'set'}) \
                is not None:
            t = t.a[0] if t.op == 'diff' else call1(t, {'list', 'sorted',
                'set'})
        lv = t
        gone = [x for x in subterms(r) if x in (tg, co, ex)]
        conds = None
    else:
        src, cs = r.a[2][0]
        lv = src
        e = mk('elem', src, 0)
        ctx.check(r.a[1] is e, 'required-inputs', f.short + ' address',
            'the result lists %s' % show(r.a[1], limit=80), f.where())
        want = {not_(cmp_('in', e, x)): n for x, n in
            ((tg, 'targets'), (co, 'constraints'), (ex, 'extraneous '
                'inputs'))}
        flat = []
        for x in cs:
            flat.extend(x.a if x.op == 'and' else (x,))
        flat = _unfold(flat)
        for w, n in want.items():
            ctx.check(w in flat, 'required-inputs', f.short + ' exclude '
                + n.split()[0], '%s are not excluded' % n, f.where())
        extra = [x for x in flat if x not in want]
        ctx.check(not extra, 'required-inputs', f.short + ' extra',
            'inputs are also excluded when %s' % show(and_(*extra),
                limit=120), f.where())
    if lv.op != 'loopval':
        x = [t for t in subterms(lv) if t.op == 'loopval']
        if not x:
            ctx.notes.append('required inputs: accumulation not recognised')
            return
        lv = x[0]
    init = lv.a[1]
    ctx.check(strip(init) is tg or init is mk('call', mk('glob', 'set'),
        (tg,), ()), 'required-inputs', f.short + ' start',
        'accumulation starts from %s' % show(init, limit=80), f.where())
    loops = [fr for e in s.events for fr in e.ctx if fr[0] == 'for']
    srcs = set()
    for t in subterms(lv):
        if t.op == 'elem':
            b = t.a[0]
            if contains(b, topo):
                srcs.add(b)
    model = None
    for v in lv.a[2]:
        if v.op == 'dictmerge' and len(v.a) == 2 and v.a[1].op == 'ite':
            # Adding nothing is leaving it.
            w = [v.a[0] if x.op in ('list', 'tuple', 'setdisp') and not x.a
                else mk('dictmerge', v.a[0], x) for x in v.a[1].a[1:]]
            v = ite(v.a[1].a[0], *w)
        if v.op == 'ite':
            cond = v.a[0]
            if v.a[1] is not None and v.a[1].op == 'phi':
                cond = not_(cond)
                new = v.a[2]
            else:
                new = v.a[1]
        else:
            cond, new = TRUE, v
        got = set(subterms(new))
        ins = [t for t in got if t.op == 'attr' and t.a[1] == 'inputs']
        ctx.check(bool(ins), 'required-inputs', f.short + ' add',
            'the inputs of a needed model are not added', f.where())
        if not ins:
            continue
        whole = [t for t in got if t.op in ('dictmerge', 'setmerge', 'union',
            'localmut', 'bitor', 'loopval', 'comp')]
        part = [t for t in got if t.op in ('slice', 'item', 'unpack') and
            t.a[0] in ins]
        ctx.check(not part, 'required-inputs', f.short + ' all inputs',
            'only some inputs of a needed model are added: %s'
            % (part and show(part[0], limit=80)), f.where())
        m = ins[0].a[0]
        ctx.check(m.op == 'item' and m.a[0] is cg, 'required-inputs',
            f.short + ' model', 'inputs of %s are added' % show(m, limit=80),
            f.where())
        o = mk('attr', m, 'outputs')
        oe = mk('elem', o, 0)
        # any(i in required or i in constraints for i in outputs)
        hit = _disj(cond, o)
        names = {'required': any(x.op == 'phi' for x in hit),
            'constraints': any(x is co for x in hit)}
        for k, vv in sorted(names.items()):
            ctx.check(vv, 'required-inputs', f.short + ' when ' + k,
                'a model with a %s output does not get its inputs' %
                ('required' if k == 'required' else 'constrained'),
                f.where())
        other = [x for x in hit if x.op != 'phi' and x is not co
            and x is not tg]
        ctx.check(not other, 'required-inputs', f.short + ' when',
            'inputs are added under an unrelated condition %s'
            % show(cond, limit=120), f.where())
    # Direction of the walk.
    its = [x for k in [f] + list(s.inlined)
        for x in s.an.loop_iters.get(k.qual, ())]
    if its:
        rev = any(call1(x, {'reversed'}) is not None or x.op == 'slice'
            for x in its if contains(x, topo))
        ctx.check(rev, 'required-inputs', f.short + ' order',
            'models are not visited from last to first', f.where())


def _unfold(flat):
    """all(x not in c for c in [..]) spelled out."""
    out = []
    for x in flat:
        if x.op == 'allq' and len(x.a[1]) == 1 and \
                x.a[1][0][0].op in ('list', 'tuple'):
            c = x.a[1][0][0]
            for y in c.a:
                out.append(subst(x.a[0], {mk('elem', c, 0): y}))
        elif x.op == 'not' and x.a[0].op in ('union', 'concat'):
            out.append(x)
        elif x.op == 'not' and x.a[0].op == 'in' and \
                x.a[0].a[1].op in ('union', 'concat', 'setmerge'):
            for y in x.a[0].a[1].a:
                out.append(not_(cmp_('in', x.a[0].a[0], y)))
        else:
            out.append(x)
    return out


def _disj(cond, outs):
    """Containers c such that cond is `some output is in c`."""
    alts = list(cond.a) if cond.op == 'or' else [cond]
    res = []
    for a in alts:
        if a.op == 'anyq' and len(a.a[1]) == 1 and a.a[1][0][0] is outs:
            e = mk('elem', outs, 0)
            for b in (a.a[0].a if a.a[0].op == 'or' else (a.a[0],)):
                if b.op == 'in' and b.a[0] is e:
                    res.append(b.a[1])
                else:
                    res.append(b)
        elif a.op == 'anyq' and len(a.a[1]) == 1 and \
                a.a[0].op == 'in' and \
                a.a[0].a[0] is mk('elem', a.a[1][0][0], 0) and \
                a.a[0].a[1] is strip(outs):
            res.append(a.a[1][0][0])
        elif a.op == 'inter':
            o = strip(outs)
            res.extend(x for x in a.a if x is not o)
        else:
            res.append(a)
    return res


def network(ctx):
    """The composite keeps what the helpers derive from its own members."""
    ctx.rule('network-build', 'a composite network validates its members and '
        'derives index, order and extraneous inputs from those same members')
    c = ctx.ix.cls('cgpm.network.importance.ImportanceNetwork')
    f = c.lookup('__init__')
    s = ctx.summ(f, c, inline=core.boundary('validate_cgpms',
        'retrieve_variable_to_cgpm', 'retrieve_adjacency_list',
        'retrieve_extraneous_inputs', 'topological_sort'))
    env = {}
    for e in s.events:
        if e.kind == 'write' and e.op == '=' and e.loc.op == 'attr' and \
                e.loc.a[0] is mk('param', 'self'):
            env[e.loc.a[1]] = e.value
    vals = {}

    def full(t):
        return t
    cg = mk('param', 'cgpms')
    names = {}
    for k, v in env.items():
        for t in subterms(v):
            if t.op == 'call':
                names.setdefault(last(t.a[0]), []).append((k, t))
    checks = {
        'validate_cgpms': (1, 'members are not validated'),
        'retrieve_variable_to_cgpm': (1, 'no variable index is built'),
        'retrieve_adjacency_list': (2, 'no parent relation is built'),
        'retrieve_extraneous_inputs': (2, 'extraneous inputs not derived'),
        'topological_sort': (1, 'no evaluation order is derived'),
    }
    called = {}
    for e in s.events:
        if e.kind == 'call':
            called.setdefault((e.name or '').split('.')[-1].split('@')[0],
                []).append(e)
    for n, (k, msg) in sorted(checks.items()):
        es = called.get(n, [])
        if not ctx.check(bool(es), 'network-build', n, msg, f.where()):
            continue
        a = es[0].args
        if n == 'topological_sort':
            ok = any(t.op == 'call' and last(t.a[0]) ==
                'retrieve_adjacency_list' for t in subterms(a[0]))
        else:
            m = a[0]
            ok = m is cg or any(t is cg for t in subterms(m))
        ctx.check(ok, 'network-build', n + ' argument', '%s is given %s'
            % (n, show(a[0], limit=80)), f.where())
        if k == 2:
            ok = any(t.op == 'call' and last(t.a[0]) ==
                'retrieve_variable_to_cgpm' for t in subterms(a[1]))
            ctx.check(ok, 'network-build', n + ' index', '%s does not use '
                'the variable index' % n, f.where())
