"""C06 all randomness flows from the generator handed to the model."""
import ast

import core
from front import AnalysisBroken, Class, Func
from q import *             # noqa
from terms import *         # noqa

R1 = 'C06.no-ambient-random'
R2 = 'C06.generator-threaded'
R3 = 'C06.generator-kept'
R4 = 'C06.default-only-when-absent'
RNG = ('rng', 'prng')

# Plotting and test helpers produce no model output.
SKIP_MODULES = ('test', 'plots', 'render', 'statedoc')
GEN = {'cgpm.utils.general.gen_rng', 'cgpm.utils.general.get_prng'}


def entry_functions(ctx):
    for c in ctx.ix.all_classes():
        if c.module.name.split('.')[-1] in SKIP_MODULES:
            continue
        for f in c.methods.values():
            yield f, c
    for m in ctx.ix.modules.values():
        if m.name.split('.')[-1] in SKIP_MODULES:
            continue
        for f in m.functions.values():
            yield f, None


def reachable(ctx):
    """Functions reachable from methods of the model classes (calls resolved
    by imports, attribute calls by method name)."""
    byname = {}
    for c in ctx.ix.all_classes():
        for n, f in c.methods.items():
            byname.setdefault(n, []).append(f)
    seen, work = set(), []
    for c in ctx.ix.all_classes():
        if c.module.name.split('.')[-1] in SKIP_MODULES:
            continue
        work += list(c.methods.values())
    while work:
        f = work.pop()
        if f in seen or f.module.name.split('.')[-1] in SKIP_MODULES:
            continue
        seen.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)):
                r = ctx.ix.resolve_expr(f.module, n)
                if isinstance(r, Func):
                    work.append(r)
                elif isinstance(n, ast.Attribute) and n.attr in byname:
                    work += byname[n.attr]
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    r = ctx.ix.resolve_dotted('%s.%s' % (ctx.ix.abs_module(
                        f.module, n.module, n.level), a.name))
                    if isinstance(r, Func):
                        work.append(r)
    return seen


def tail(f):
    return str(f.a[1] if f.op == 'attr' else f.a[0] if f.a else '').split(
        '.')[-1].split('@')[0]


def no_inline(f, recv, an):
    return False


def seeded(e):
    """gen_rng call with a seed that is not a constant."""
    a = [x for x in e.args] + list(kwd(e).values())
    return bool(a) and not is_const(a[0])


def absent_guard(e):
    """The call happens only when no generator was given."""
    for g in e.guard:
        for s in subterms(g):
            if s.op == 'param' and s.a[0] in RNG or \
                    s.op == 'attr' and s.a[1] in RNG:
                return True
            if s.op == 'call' and any(x.op == 'const' and x.a[1] == 'rng'
                    for x in s.a[1]):
                return True
            if s.op == 'in' and s.a[0].op == 'const' and s.a[0].a[1] == 'rng':
                return True
    return False


def present(c):
    """Value of a condition when a generator was given."""
    mp = {}
    for s in subterms(c):
        if s.op == 'param' and s.a[0] in RNG or \
                s.op == 'attr' and s.a[1] in RNG:
            mp[cmp_('is', s, NONE)] = FALSE
            mp[cmp_('eq', s, NONE)] = FALSE
            if c is s:
                return TRUE
            if c is not_(s):
                return FALSE
    return subst(c, mp) if mp else c


def derived(t, depth=0):
    """Value of a generator argument comes from the caller's generator."""
    if depth > 6 or t is None:
        return False
    if t.op == 'param':
        return t.a[0] in RNG
    if t.op == 'attr':
        return t.a[1] in RNG
    if t.op == 'ite':
        c = present(t.a[0])
        if c is TRUE:
            return derived(t.a[1], depth + 1)
        if c is FALSE:
            return derived(t.a[2], depth + 1)
        return derived(t.a[1], depth + 1) and derived(t.a[2], depth + 1)
    if t.op in ('orelse', 'or'):
        return derived(t.a[0], depth + 1)
    if t.op == 'call' and tail(t.a[0]) in ('gen_rng', 'get_prng'):
        return bool(t.a[1]) and not is_const(t.a[1][0])
    if t.op == 'call' and returns_generator(t.a[0]):
        return any(derived(x, depth + 1) for x in t.a[1]) or any(
            derived(x, depth + 1) for _, x in t.a[2])
    if t.op in ('elem', 'unpack', 'item', 'phi'):
        return not is_const(t) and any(
            s.op in ('param', 'attr') and s.a[-1 if s.op == 'attr' else 0]
            in RNG for s in subterms(t))
    if t.op == 'call' and tail(t.a[0]) == 'get':
        return any(x.op == 'const' and x.a[1] in RNG for x in t.a[1])
    return False


def returns_generator(fn):
    """A repository function that gives back the generator it is passed, or
    a fresh one when it is passed none."""
    f = CTX[0].ix.resolve_dotted(fn.a[0]) if fn.op in ('glob', 'func') \
        else None
    if not isinstance(f, Func) or f.qual in GEN:
        return False
    if f not in CTX[1]:
        CTX[1][f] = False
        r = CTX[0].summ(f, None, inline=no_inline).result
        CTX[1][f] = r is not None and r.op in ('ite', 'param', 'orelse',
            'or') and derived(r)
    return CTX[1][f]


CTX = [None, {}]


def isgen(t):
    return t.op == 'call' and tail(t.a[0]) in ('gen_rng', 'get_prng')


def rng_param(target):
    """(function, index of its generator parameter after self) or None."""
    if isinstance(target, Class):
        f = target.lookup('__init__')
        if f is None:
            return None
        off = 1
    elif isinstance(target, Func):
        f = target
        off = 1 if f.cls is not None and not f.is_static else 0
    else:
        return None
    for p in RNG:
        if p in f.params:
            return f, f.params.index(p) - off, p
    return None


def run(ctx):
    ctx.rule(R1, 'no function reachable from a model draws from a global '
        'generator or an unseeded library sampler')
    ctx.rule(R2, 'every call of a repository function or constructor taking '
        'a generator passes one derived from the caller\'s')
    ctx.rule(R3, 'constructors keep the generator they are given, and nobody '
        'replaces it later')
    ctx.rule(R4, 'a fresh generator is created only when none was given or '
        'from a seed drawn by the caller')
    CTX[0] = ctx
    live = reachable(ctx)
    ncall = nfn = 0
    for f, c in entry_functions(ctx):
        if f not in live:
            continue
        s = ctx.summ(f, c, inline=no_inline)
        nfn += 1
        name = f.qual.replace('cgpm.', '', 1)
        isgenfn = f.qual in GEN
        bad1 = []
        # Ambient randomness: syntactic calls, resolved through imports.
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Name)):
                full = ctx.ix.full_name(f.module, n) or ''
                if full.startswith('np.'):
                    full = 'numpy.' + full[3:]
                if full.startswith('numpy.random.') and not \
                        full.startswith('numpy.random.RandomState') and \
                        not isgenfn:
                    bad1.append((full, f.where(n)))
                if full.startswith('random.') and f.module.imports.get(
                        'random') == 'random':
                    bad1.append((full, f.where(n)))
                if full in ('os.urandom', 'uuid.uuid4', 'uuid.uuid1') or \
                        full.startswith('secrets.'):
                    bad1.append((full, f.where(n)))
        for e in s.events:
            if e.kind != 'call':
                continue
            nm = mname(e)
            full = e.fn.a[0] if e.fn is not None and e.fn.op == 'glob' else ''
            if nm == 'RandomState' and not isgenfn:
                bad1.append(('RandomState outside the generator factory',
                    e.at()))
            if nm == 'rvs' or full.startswith('sklearn.') and (
                    nm in ('RandomForestClassifier', 'KMeans', 'MiniBatchKMeans',
                    'RandomForestRegressor')):
                v = kwd(e).get('random_state')
                if v is None or not derived(v):
                    bad1.append(('%s without random_state' % nm, e.at()))
            if nm in ('seed', 'set_state') and e.recv is not None and \
                    through_rng(e.recv):
                a = e.args[0] if e.args else NONE
                if is_const(a):
                    bad1.append(('generator reset to a constant seed',
                        e.at()))
        ctx.check(not bad1, R1, name, '; '.join(sorted({b[0] for b in bad1})),
            bad1[0][1] if bad1 else f.where())
        # Threading.
        bad2, bad4 = [], []
        for e in s.events:
            if e.kind != 'call':
                continue
            if mname(e) in ('gen_rng', 'get_prng') and not isgenfn:
                if not seeded(e) and not absent_guard(e):
                    bad4.append(e)
            rp = rng_param(e.target)
            if rp is None or e.target is None or isgenfn:
                continue
            g, i, p = rp
            if not reads(g, p):
                continue        # a model that draws nothing
            if isinstance(e.target, Func) and e.fn.op == 'func' and \
                    g.cls is not None and not g.is_static:
                i += 1
            ncall += 1
            v = kwd(e).get(p)
            if v is None and i < len(e.args):
                v = e.args[i]
            if v is None and '**' in kwd(e):
                v = mk('param', 'rng')
            if v is None or not derived(v):
                bad2.append(e)
        if any(rng_param(e.target) for e in s.events if e.kind == 'call'):
            ctx.check(not bad2, R2, name, 'calls %s without its generator' %
                ', '.join(sorted({mname(e) for e in bad2})),
                bad2[0].at() if bad2 else f.where())
        if any(mname(e) in ('gen_rng', 'get_prng') for e in s.events
                if e.kind == 'call') and not isgenfn:
            ctx.check(not bad4, R4, name,
                'creates its own generator although one may have been given',
                bad4[0].at() if bad4 else f.where())
        # Kept.
        ws = [e for e in s.events if e.kind == 'write' and e.loc.op == 'attr'
            and e.loc.a[1] in RNG]
        if ws:
            bad3 = []
            for e in ws:
                if not derived(e.value) and not (
                        isgen(e.value) and absent_guard(e)):
                    bad3.append(e)
            ctx.check(not bad3, R3, name, 'generator replaced by %s' % (
                show(bad3[0].value, limit=80) if bad3 else ''),
                bad3[0].at() if bad3 else f.where())
        elif f.name == '__init__' and any(p in f.params for p in RNG) and \
                c is not None and uses_rng(ctx, c):
            # Not stored directly: must be handed to a base constructor.
            ctx.check(any(rng_param(e.target) for e in s.events
                if e.kind == 'call' and mname(e) == '__init__'), R3, name,
                'generator parameter is dropped', f.where())
    # The generator factory is deterministic in its seed.
    for q in sorted(GEN):
        f = ctx.ix.fn(q)
        s = ctx.summ(f, None, inline=no_inline)
        r = s.result
        ok = r is not None and r.op == 'call' and \
            tail(r.a[0]) == 'RandomState' and len(r.a[1]) == 1
        seed = mk('param', f.params[0])
        if ok:
            v = subst(r.a[1][0], {cmp_('is', seed, NONE): FALSE,
                mk('is', seed, NONE): FALSE, mk('is', NONE, seed): FALSE})
            ok = v is seed
        ctx.check(ok, R4, q, 'a given seed does not determine the generator',
            f.where())
    ctx.require(nfn, 350, 'reachable functions')
    ctx.require(ncall, 60, 'calls taking a generator')


def reads(f, p):
    return any(isinstance(n, ast.Name) and n.id == p
        for b in f.node.body for n in ast.walk(b))


def uses_rng(ctx, c):
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in RNG and \
                    isinstance(n.value, ast.Name) and n.value.id == 'self':
                return True
    return False
