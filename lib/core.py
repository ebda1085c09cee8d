"""Check runner: obligations, violations, known findings, evidence."""
import hashlib
import json
import os
import sys
import time
import traceback

import front
import interp
import typeinfo
from front import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CGPM_REPO', '/repo')

# Functions of cgpm.utils.general that rules treat as primitives.
PRIMITIVE_UTILS = {
    'merged', 'mergedl', 'lchain', 'logsumexp', 'log_pflip', 'pflip',
    'logmeanexp', 'logmeanexp_weighted', 'log_normalize', 'normalize',
    'log_linspace', 'log_nCk', 'gen_rng', 'get_prng', 'get_intersection',
    'is_disjoint', 'flatten_cgpms', 'simulate_crp',
    'simulate_crp_constrained', 'simulate_crp_constrained_dependent',
    'logp_crp', 'logp_crp_unorm', 'logp_crp_gibbs', 'logp_crp_fresh',
    'build_rowid_blocks', 'bincount', 'unique',
}
INTERFACE = {'incorporate', 'unincorporate', 'logpdf', 'simulate',
    'logpdf_score', 'transition', 'to_metadata', 'from_metadata'}


# Functions of the utility modules that stand for themselves; helpers
# extracted from them are looked into.
OPAQUE = set('''
_covariance_factor _find_slice_interval all_cctypes build_valmap cctype_class
check_env_debug clustermap_ordering colors compute_axis_size_viz_data
conditional dlogpdf dummy_code engine_to_zmatrix_history get_fig_axes
get_state_plot_layout get_view_data logpdf loom_stattype mh_sample
nannormalize nanptp parse_distargs parse_schema partition_to_zmatrix
partitions_to_zmatrix plot_clustermap plot_dist_continuous plot_dist_discrete
plot_heatmap plot_logscore plot_samples rejection_sample resample_data
slice_sample timestamp valid_cctype viz_data viz_data_raw viz_state viz_view
viz_view_raw
'''.split())


def default_inline(f, recv, an):
    if f.module.name == 'cgpm.utils.general' and f.name in PRIMITIVE_UTILS:
        return False
    if f.module.name.startswith('cgpm.utils.') and \
            f.module.name.split('.')[-1] in ('mvnormal', 'config', 'plots',
                'render', 'sampling', 'data'):
        return f.name not in OPAQUE
    return True


def boundary(*names, **kw):
    """Inline predicate that additionally keeps the named functions opaque."""
    names = set(names)

    def pred(f, recv, an):
        if f.name in names or f.qual in names or f.short in names:
            if kw.get('keep_self') and recv is not None and \
                    recv.op == 'param' and recv.a[0] == 'self':
                return True
            return False
        return default_inline(f, recv, an)
    return pred


class Ctx(object):
    def __init__(self, pid):
        self.pid = pid
        self.ix = front.Index(REPO)
        self.types = typeinfo.Types(self.ix)
        self.obl = []            # (rule, construct, status)
        self.viol = []
        self.notes = []
        self.modules = set()
        self.functions = set()
        self.rules = {}

    def analyzer(self, inline=None, **kw):
        return interp.Analyzer(self.ix, self.types,
            inline or default_inline, **kw)

    def summ(self, func, cls=None, inline=None, an=None, **kw):
        an = an or self.analyzer(inline)
        s = an.summarize(func, cls, **kw)
        s.an = an
        self.saw(func)
        for f in s.inlined:
            self.saw(f)
        return s

    def saw(self, func):
        if getattr(func, 'module', None) is not None:
            self.modules.add(func.module.name)
            self.functions.add(func.qual if hasattr(func, 'qual')
                else func.name)

    def rule(self, rid, text):
        self.rules[rid] = text
        return rid

    def ok(self, rule, construct):
        self.obl.append((rule, construct, 'holds'))

    def violation(self, rule, construct, message, where=''):
        self.obl.append((rule, construct, 'violated'))
        key = '%s|%s' % (rule, construct)
        if any(v['key'] == key for v in self.viol):
            return
        self.viol.append({'key': key, 'rule': rule, 'construct': construct,
            'where': where, 'message': message})

    def check(self, cond, rule, construct, message, where=''):
        if cond:
            self.ok(rule, construct)
        else:
            self.violation(rule, construct, message, where)
        return cond

    def require(self, n, minimum, what):
        if n < minimum:
            raise AnalysisBroken('%s: only %d %s found, at least %d expected'
                % (self.pid, n, what, minimum))


def include(ctx, fn, pattern):
    """The obligations of another rule that this property rests on."""
    import re
    sub = Ctx.__new__(Ctx)
    sub.__dict__.update(ctx.__dict__)
    sub.obl, sub.viol, sub.rules = [], [], {}
    try:
        fn(sub)
    except AnalysisBroken as e:
        # Reported by the property that owns the rule.
        ctx.notes.append('not included: %s' % e)
        return
    have = {(r, c) for r, c, _ in ctx.obl}
    wanted = re.compile(pattern)
    n = 0
    for r, c, s in sub.obl:
        if wanted.search('%s|%s' % (r, c)) and (r, c) not in have:
            ctx.obl.append((r, c, s))
            ctx.rules.setdefault(r, sub.rules.get(r, ''))
            n += 1
    for v in sub.viol:
        if wanted.search(v['key']) and (v['rule'], v['construct']) not in have:
            ctx.viol.append(v)
    if not n:
        ctx.notes.append('nothing matches %s' % pattern)


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('known: '):
                continue
            parts = line.split(' ', 3)
            prop = parts[1].split('=', 1)[1]
            key = parts[2].split('=', 1)[1]
            if prop == pid:
                out[key] = parts[3] if len(parts) > 3 else ''
    return out


def run(pid, fn, title, uses, tier):
    t0 = time.time()
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evpath = os.path.join(evdir, '%s.json' % pid)
    sys.setrecursionlimit(20000)
    try:
        ctx = Ctx(pid)
        ctx.tier = tier
        fn(ctx)
        if not ctx.obl:
            raise AnalysisBroken('%s: no obligation was generated' % pid)
        for other, pattern in uses or ():
            include(ctx, other, pattern)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    known = load_known(pid)
    new = [v for v in ctx.viol if v['key'].replace(' ', '_') not in known]
    old = [v for v in ctx.viol if v['key'].replace(' ', '_') in known]
    per = {}
    for r, c, s in ctx.obl:
        d = per.setdefault(r, {'obligations': 0, 'violated': 0})
        d['obligations'] += 1
        if s == 'violated':
            d['violated'] += 1
    ev = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'other',
        'coverage': {
            'explanation': 'Static dataflow/effect analysis of the sources '
                'in /repo/src; every listed obligation was decided from the '
                'syntax tree of the current tree, nothing was executed.',
            'title': title,
            'source_digest': ctx.ix.digest.hexdigest(),
            'modules_parsed': len(ctx.ix.modules),
            'modules_consulted': sorted(ctx.modules),
            'functions_analysed': len(ctx.functions),
            'obligations': len(ctx.obl),
            'obligations_discharged': sum(
                1 for o in ctx.obl if o[2] == 'holds'),
            'rules': {r: dict(per.get(r, {'obligations': 0, 'violated': 0}),
                rule=t) for r, t in ctx.rules.items()},
            'instances': sorted({'%s|%s' % (r, c) for r, c, _ in ctx.obl}),
            'known_findings_seen': [v['key'] for v in old],
            'notes': ctx.notes,
        },
        'assumptions': [
            'Receivers named in the type table (lib/typeinfo.py) hold '
            'objects of the listed classes.',
            'No code outside /repo/src rebinds methods or attributes of '
            'repository classes (monkey patching).',
        ],
        'violations': len(new),
        'wall_s': round(time.time() - t0, 3),
    }
    with open(evpath, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['key'],
            v['message']))
    if not new:
        print('OK property=%s obligations=%d functions=%d known=%d' % (
            pid, len(ctx.obl), len(ctx.functions), len(old)))
        return 0
    rp = os.path.join(evdir, '%s.violation.txt' % pid)
    with open(rp, 'w') as f:
        for v in new:
            f.write('rule:      %s\n  %s\nconstruct: %s\nwhere:     %s\n'
                'report:    %s\n\n' % (v['rule'], ctx.rules.get(
                    v['rule'], ''), v['construct'], v['where'],
                    v['message']))
    for v in new:
        print('%s: [%s] %s: %s' % (v['where'], v['rule'], v['construct'],
            v['message']))
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1
