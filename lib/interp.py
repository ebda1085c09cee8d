"""Flow-sensitive dataflow summaries of functions.

`Analyzer.summarize(func, cls)` abstractly evaluates one function: every local
is mapped to a normalised term (terms.py), branches are merged into gated
terms, loop bodies are evaluated to a fixed shape once per loop, and calls to
functions of the repository are inlined up to a bound (interface boundaries
chosen by the rule stay opaque).  The result is an ordered list of events

    write   location := value          (attribute/subscript/container update)
    call    callee(args)               (opaque or boundary calls)
    raise / assert / return

each with its guard (path condition as a conjunction) and loop context.
Nothing of the analysed program is executed.
"""
import ast

from terms import *          # noqa
from terms import _isbool, _definite
from front import AnalysisBroken, Class, Func, Module

# Functions of this code that are read as a builtin when effects are tracked.
ALIAS = {'cgpm.utils.parallel_map.parallel_map': 'map'}

MUTATORS = {
    'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear',
    'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
    'itemset', 'fill', 'resize', 'difference_update', 'intersection_update',
    'symmetric_difference_update', '__setitem__', '__delitem__', 'put',
    'appendleft', 'extendleft', 'popleft',
}
DICT_ITER = {
    'keys': 'keys', 'iterkeys': 'keys', 'viewkeys': 'keys',
    'values': 'values', 'itervalues': 'values', 'viewvalues': 'values',
    'items': 'items', 'iteritems': 'items', 'viewitems': 'items',
}
BUILTIN_FRESH = {'list', 'dict', 'set', 'tuple', 'sorted', 'frozenset',
    'OrderedDict', 'defaultdict', 'copy', 'deepcopy', 'array', 'asarray'}


class Ev(object):
    __slots__ = ('kind', 'loc', 'op', 'value', 'args', 'kw', 'guard', 'ctx',
        'node', 'func', 'stack', 'seq', 'fn', 'recv', 'name', 'target',
        'inlined', 'tryctx')

    def __init__(self, kind, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))
        self.kind = kind

    def at(self):
        return '%s (%s)' % (self.func.where(self.node), self.func.short)

    def __repr__(self):
        g = ' if ' + ' & '.join(map(repr, self.guard)) if self.guard else ''
        c = ' in ' + repr([x[0] for x in self.ctx]) if self.ctx else ''
        if self.kind == 'write':
            return '<W %r %s %r%s%s>' % (self.loc, self.op, self.value, g, c)
        if self.kind == 'call':
            return '<C %r(%r %r)%s%s>' % (self.fn, self.args, self.kw, g, c)
        return '<%s %r%s%s>' % (self.kind, self.value, g, c)


class Dead(Exception):
    pass


class State(object):
    __slots__ = ('frames', 'alias', 'heap', 'guard', 'ctx')

    def __init__(self):
        self.frames = {}
        self.alias = {}
        self.heap = {}
        self.guard = ()
        self.ctx = ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.alias = dict(self.alias)
        s.heap = dict(self.heap)
        s.guard = self.guard
        s.ctx = self.ctx
        return s


class Frame(object):
    """Static info on the function being evaluated."""

    def __init__(self, fid, func, cls, module, depth, parent=None):
        self.fid = fid
        self.func = func
        self.cls = cls            # dynamic class of self
        self.module = module
        self.depth = depth
        self.parent = parent      # enclosing frame for closures
        self.returns = []         # (State, T)
        self.loops = []           # stack of {'cont': [], 'brk': []}
        self.is_gen = False
        self.locals = set()


class Summary(object):
    def __init__(self):
        self.events = []
        self.result = None
        self.end = None
        self.params = {}
        self.warnings = []
        self.inlined = set()
        self.returns = []

    def calls(self, name=None):
        return [e for e in self.events if e.kind == 'call'
            and (name is None or e.name == name)]

    def writes(self):
        return [e for e in self.events if e.kind == 'write']

    def raises(self):
        return [e for e in self.events if e.kind == 'raise']


class Analyzer(object):
    def __init__(self, index, types=None, inline=None, max_depth=8,
            budget=60000, track=None):
        """track: names of opaque calls that update their receiver; when
        given, later reads of the receiver see the update.
        inline(func, recv_term, analyzer) -> bool decides boundaries."""
        self.ix = index
        self.types = types
        self.inline_pred = inline or (lambda f, r, a: True)
        self.max_depth = max_depth
        self.budget0 = budget
        self.track = track
        self.closures = {}
        self.constcache = {}
        self.param_types = {}

    # ------------------------------------------------------------------
    def summarize(self, func, cls=None, args=None, ptypes=None,
            exact=None):
        self.events = []
        self.steps = 0
        self.fidc = 0
        self.aliasc = 0
        self.callstack = []
        self.trystack = []
        self.silent = 0
        self.lambdas = 0
        self.loop_iters = {}
        self.bodies = {}
        self.turns = {}
        self.inlined = set()
        self.param_types = dict(ptypes or {})
        self.exact = set(exact or ())
        self.objtypes = {}
        self.warn = []
        cls = cls or func.cls
        st = State()
        fr = self._new_frame(func, cls, func.module, 0)
        env = st.frames[fr.fid] = {}
        pars = {}
        node = func.node
        names = list(func.params)
        for i, p in enumerate(names):
            if args and p in args:
                v = args[p]
            elif i == 0 and func.cls and not func.is_static:
                if func.is_classmethod:
                    v = mk('class', cls.qual)
                else:
                    v = mk('param', 'self')
                    self.param_types.setdefault('self', cls)
            else:
                v = mk('param', p)
            env[p] = v
            pars[p] = v
            st.alias[(fr.fid, p)] = self._newalias()
        for extra in (func.vararg, func.kwarg):
            if extra:
                env[extra] = pars[extra] = mk('param', '*' + extra)
        out = Summary()
        res, end = self._run_body(func, fr, st)
        out.events = self.events
        for i, e in enumerate(out.events):
            e.seq = i
        out.result = res
        out.end = end
        out.params = pars
        out.returns = fr.returns
        out.inlined = self.inlined
        out.warnings = self.warn
        return out

    def _new_frame(self, func, cls, module, depth, parent=None):
        self.fidc += 1
        fr = Frame(self.fidc, func, cls, module, depth, parent)
        fr.locals = _local_names(func.node) if func else set()
        fr.is_gen = _is_generator(func.node) if func else False
        return fr

    def _newalias(self):
        self.aliasc += 1
        return self.aliasc

    def _run_body(self, func, fr, st):
        """Evaluate body; merge all exits.  Returns (result, end state)."""
        node = func.node
        g0 = st.guard
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, fr, st)
            return v, st
        live = self.block(node.body, fr, st)
        rets = fr.returns
        if live is not None:
            rets.append((live, NONE))
        if not rets:
            return None, None
        if fr.is_gen:
            res = mk('gen', func.qual, tuple(r for _, r in rets))
            return res, self._merge_exits(rets, g0)[1]
        return self._merge_exits(rets, g0)

    def _merge_exits(self, rets, g0):
        # Merge from last to first with their distinguishing guards.
        n = len(g0)
        conds = [and_(*s.guard[n:]) for s, _ in rets]
        st, res = rets[-1]
        st = st.copy()
        for (s, r), c in reversed(list(zip(rets[:-1], conds[:-1]))):
            st = self._merge_states(c, s, st)
            res = ite(c, r, res)
        g = or_(*conds)
        st.guard = g0 + (tuple(g.a) if g.op == 'and' else
            () if g is TRUE else (g,))
        return res, st

    def _merge_states(self, c, a, b):
        out = State()
        out.ctx = b.ctx
        out.guard = b.guard
        for fid in set(a.frames) | set(b.frames):
            ea, eb = a.frames.get(fid), b.frames.get(fid)
            if ea is None or eb is None:
                out.frames[fid] = dict(ea or eb)
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k), eb.get(k)
                if va is None or vb is None:
                    e[k] = va if va is not None else vb
                else:
                    e[k] = ite(c, va, vb)
            out.frames[fid] = e
        out.alias = dict(b.alias)
        for k, v in a.alias.items():
            out.alias.setdefault(k, v)
        for loc in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va, vb = a.heap.get(loc, loc), b.heap.get(loc, loc)
            v = ite(c, va, vb)
            if v is not loc:
                out.heap[loc] = v
        return out

    # -- events -----------------------------------------------------------
    def emit(self, kind, fr, st, node, **k):
        e = Ev(kind, guard=st.guard, ctx=st.ctx, node=node,
            func=fr.func or self.callstack[-1], stack=tuple(self.callstack),
            tryctx=tuple(self.trystack), **k)
        if not self.silent:
            self.events.append(e)
        return e

    def tick(self):
        self.steps += 1
        if self.steps > self.budget0:
            raise AnalysisBroken('analysis budget exceeded in %s' % (
                self.callstack[:1],))

    # -- types ------------------------------------------------------------
    def typeof(self, t):
        op = t.op
        if op == 'param':
            return self.param_types.get(t.a[0])
        if op == 'mut':
            return self.typeof(t.a[0])
        if op in ('loopval', 'phi') and self.track is not None:
            return self.typeof(t.a[1 if op == 'loopval' else 2])
        if op == 'new':
            r = self.ix.resolve_dotted(t.a[0])
            return r if isinstance(r, Class) else None
        if op == 'attr':
            b = self.typeof(t.a[0])
            if isinstance(b, Class) and self.types:
                return self.types.attr(b, t.a[1])
            return None
        if op == 'item':
            b = self.typeof(t.a[0])
            if isinstance(b, tuple) and b[0] == 'of':
                return b[1]
            return None
        if op == 'elem':
            b = self.typeof(t.a[0])
            if isinstance(b, tuple) and b[0] == 'of' and \
                    b[2] == 'list':
                return b[1]
            return None
        if op == 'ite':
            x, y = self.typeof(t.a[1]), self.typeof(t.a[2])
            return x or y
        if op == 'call':
            f = t.a[0]
            if self.types:
                return self.types.call(self, t)
        if op == 'comp' and t.a[0] in ('list', 'gen'):
            e = self.typeof(t.a[1])
            return ('of', e, 'list') if e else None
        if op == 'slice':
            return self.typeof(t.a[0])
        return None

    # -- statements -------------------------------------------------------
    def block(self, stmts, fr, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, fr, st)
        return st

    def stmt(self, s, fr, st):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.warn.append('stmt %s' % type(s).__name__)
            return st
        return m(s, fr, st)

    def s_Pass(self, s, fr, st):
        return st

    s_Global = s_Nonlocal = s_ClassDef = s_Pass

    def s_Import(self, s, fr, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.frames[fr.fid][nm] = self._global_dotted(
                self.ix.abs_module(fr.module, a.name if a.asname else nm))
        return st

    def s_ImportFrom(self, s, fr, st):
        for a in s.names:
            st.frames[fr.fid][a.asname or a.name] = self._global_dotted(
                '%s.%s' % (self.ix.abs_module(
                    fr.module, s.module, s.level), a.name))
        return st

    def s_FunctionDef(self, s, fr, st):
        st.frames[fr.fid][s.name] = self._closure(s, fr, st, s.name)
        return st

    def _closure(self, node, fr, st, name):
        key = (id(node), fr.fid)
        t = mk('closure', '%s@%d' % (name, len(self.closures)))
        f = Func(name, node, fr.module, None) if not isinstance(
            node, ast.Lambda) else _lambda_func(name, node, fr.module)
        f.cls_ctx = fr.cls
        f.owner = fr.func
        self.closures[t] = (f, fr, dict(st.frames[fr.fid]))
        return t

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, fr, st)
        return self._alive(st)

    def _alive(self, st):
        return None if getattr(self, '_died', None) is st else st

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        al = self._alias_of(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st, s, al)
        return self._alive(st)

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            v = self.ev(s.value, fr, st)
            self.assign(s.target, v, fr, st, s, None)
        return self._alive(st)

    def _alias_of(self, e, fr, st):
        if isinstance(e, ast.Name):
            f = fr
            while f is not None:
                if (f.fid, e.id) in st.alias and e.id in st.frames.get(
                        f.fid, {}):
                    return st.alias[(f.fid, e.id)]
                f = f.parent
        return self._newalias()

    def s_AugAssign(self, s, fr, st):
        cur = self.ev(_load(s.target), fr, st)
        v = self.ev(s.value, fr, st)
        op = type(s.op).__name__
        # In-place list growth through a location.
        nv = self.binop(op, cur, v, fr)
        if isinstance(s.target, ast.Name):
            loc = self._loc_of_local(s.target.id, cur)
            if loc is not None and op == 'Add' and _is_seq(v):
                self._heap_mut(loc, 'extend', (v,), fr, st, s)
                return self._alive(st)
            st.frames[fr.fid][s.target.id] = nv
        else:
            self.assign(s.target, nv, fr, st, s, None, aug=(op, v))
        return self._alive(st)

    def _loc_of_local(self, name, cur):
        return cur if _is_loc(cur) and cur.op != 'param' else None

    def assign(self, t, v, fr, st, node, al=None, aug=None):
        if isinstance(t, ast.Name):
            st.frames[fr.fid][t.id] = v
            st.alias[(fr.fid, t.id)] = al or self._newalias()
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, self.unpack(v, i, len(t.elts)), fr, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            for base in _alts(b):
                self._write(mk('attr', base, t.attr), v, fr, st, node,
                    t.value, aug)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            i = self.ev(t.slice, fr, st)
            if _is_loc(b) or b.op in ('ite', 'orelse') and any(
                    _is_loc(x) for x in _alts(b)):
                g0 = st.guard
                for c, base in _ways(b):
                    base = _unset(base)
                    st.guard = _extend(g0, c) or g0
                    self._write(mk('item', base, i), v, fr, st, node,
                        t.value, aug)
                st.guard = g0
            else:
                src = _through_copy(b)
                if src is not None:
                    self.emit('write', fr, st, node, loc=mk('item', src, i),
                        op='=', value=v, args=())
                elif self.track is not None and (_part_of_new(b) or
                        _part_of_fresh(b)):
                    self.emit('write', fr, st, node, loc=mk('item', b, i),
                        op='=', value=v, args=())
                self._local_update(t.value, _setitem(b, i, v), fr, st,
                    node)

    def _write(self, loc, v, fr, st, node, base_node, aug):
        base = loc.a[0]
        if not _is_loc(base):
            # Attribute of a fresh object: remember, and emit for ctor rules.
            st.heap[loc] = v
            self.emit('write', fr, st, node, loc=loc, op='=', value=v,
                args=(aug,) if aug else ())
            return
        for k in [k for k in st.heap if _may_alias(k, loc)]:
            del st.heap[k]
        if self.track is not None and loc.op == 'item':
            st.heap[unmut(base)] = mk('mut', st.heap.get(unmut(base), base),
                'setitem', (loc.a[1], v), ())
        st.heap[loc] = v
        self.emit('write', fr, st, node, loc=loc, op='=', value=v,
            args=(aug,) if aug else ())

    def _local_update(self, target, newv, fr, st, node):
        """Functional update of the local variable at the root of target."""
        path = []
        t = _as_subscript(target)
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            path.append(t)
            t = _as_subscript(t.value)
        if not isinstance(t, ast.Name):
            return
        v = newv
        for p in path:
            root = self.ev(_as_subscript(p.value), fr, st, quiet=True)
            if isinstance(p, ast.Subscript):
                i = self.ev(p.slice, fr, st, quiet=True)
                if root.op == 'append' and i is const(-1):
                    v = mk('append', root.a[0], v)
                else:
                    v = _setitem(root, i, v)
            else:
                v = mk('setattr', root, p.attr, v)
        f = fr
        while f is not None and t.id not in st.frames.get(f.fid, {}):
            f = f.parent
        if f is None:
            return
        al = st.alias.get((f.fid, t.id))
        st.frames[f.fid][t.id] = v
        if al is not None:
            for (fid, nm), a in list(st.alias.items()):
                if a == al and nm in st.frames.get(fid, {}):
                    st.frames[fid][nm] = v

    def unpack(self, v, i, n):
        if v.op in ('tuple', 'list') and len(v.a) == n:
            return v.a[i]
        if v.op == 'ite':
            return ite(v.a[0], self.unpack(v.a[1], i, n),
                self.unpack(v.a[2], i, n))
        return mk('unpack', v, i) if v.op != 'param' \
            else mk('item', v, const(i))

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, st)
                i = self.ev(t.slice, fr, st)
                if _is_loc(b) or b.op in ('ite', 'orelse') and any(
                        _is_loc(x) for x in _alts(b)):
                    for base in _alts(b):
                        self._heap_mut(base, 'delitem', (i,), fr, st, s)
                else:
                    src = _through_copy(b)
                    if src is not None:
                        self.emit('write', fr, st, s, loc=src, op='delitem',
                            value=i, args=(i,))
                    self._local_update(t.value, mk('delitem', b, i), fr, st,
                        s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, st)
                for base in _alts(b):
                    self.emit('write', fr, st, s,
                        loc=mk('attr', base, t.attr), op='delattr',
                        value=NONE, args=())
        return self._alive(st)

    def _heap_mut(self, loc, op, args, fr, st, node):
        if op == 'pop' and len(args) == 1 and self.track is not None:
            op = 'delitem'
        for k in [k for k in st.heap if _under(k, loc)]:
            del st.heap[k]
        if self.track is not None:
            st.heap[unmut(loc)] = mk('mut', st.heap.get(loc, loc), op, args,
                ())
        elif loc in st.heap:
            st.heap[loc] = mk('mutated', op, st.heap[loc], args)
        self.emit('write', fr, st, node, loc=loc, op=op,
            value=args[-1] if args else NONE, args=args)

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        if self._alive(st) is None:
            return None
        self.emit('inner-return' if self.callstack else 'return',
            fr, st, s, value=v)
        fr.returns.append((st, v))
        return None

    def s_Raise(self, s, fr, st):
        v = self.ev(s.exc, fr, st) if s.exc is not None else mk('reraise')
        self.emit('raise', fr, st, s, value=v)
        return None

    def s_Assert(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        self.emit('assert', fr, st, s, value=c)
        if c is FALSE:
            return None
        return st

    def s_If(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        if self._alive(st) is None:
            return None
        return self._branch(c, st,
            lambda x: self.block(s.body, fr, x),
            lambda x: self.block(s.orelse, fr, x))

    def _branch(self, c, st, fa, fb):
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        base = st.guard
        a, b = st.copy(), st.copy()
        a.guard = _extend(base, c)
        b.guard = _extend(base, not_(c))
        a = fa(a) if a.guard is not None else None
        b = fb(b) if b.guard is not None else None
        if a is None and b is None:
            return None
        if a is None:
            return b
        if b is None:
            return a
        n = len(base)
        m = self._merge_states(c, a, b)
        ga, gb = and_(*a.guard[n:]), and_(*b.guard[n:])
        g = or_(ga, gb)
        if ga is c and gb is not_(c):
            g = TRUE
        elif len(a.guard) == n + 1 and len(b.guard) == n + 1:
            g = TRUE
        m.guard = base + (() if g is TRUE else
            tuple(g.a) if g.op == 'and' else (g,))
        return m

    def s_With(self, s, fr, st):
        for it in s.items:
            v = self.ev(it.context_expr, fr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk('enter', v), fr, st, s)
            self.emit('enter', fr, st, s, value=v)
        st = self.block(s.body, fr, st)
        return st

    def s_Try(self, s, fr, st):
        base = st.guard
        pre = st.copy()
        tid = ('try', s.lineno, bool(s.finalbody), tuple(
            ast.unparse(h.type) if h.type else '*' for h in s.handlers))
        self.trystack.append(tid)
        body = self.block(s.body, fr, st)
        self.trystack.pop()
        if body is not None and s.orelse:
            body = self.block(s.orelse, fr, body)
        outs = [] if body is None else [(TRUE, body)]
        for h in s.handlers:
            nm = ast.unparse(h.type) if h.type else '*'
            c = mk('exc', nm, s.lineno)
            x = pre.copy()
            x.guard = base + (c,)
            # Anything the body assigned may or may not have happened.
            if h.name:
                x.frames[fr.fid][h.name] = mk('excval', nm)
            self.trystack.append(('handler', s.lineno, False, (nm,)))
            y = self.block(h.body, fr, x)
            self.trystack.pop()
            if y is not None:
                outs.append((c, y))
        if not outs:
            res = None
        else:
            res = outs[0][1]
            for c, y in outs[1:]:
                g = res.guard
                res = self._merge_states(c, y, res)
                res.guard = base
        if s.finalbody:
            self.trystack.append(('finally', s.lineno, False, ()))
            if res is not None:
                res = self.block(s.finalbody, fr, res)
            else:
                self.block(s.finalbody, fr, pre.copy())
            self.trystack.pop()
        return res

    s_TryStar = s_Try

    def s_Break(self, s, fr, st):
        fr.loops[-1]['brk'].append(st)
        return None

    def s_Continue(self, s, fr, st):
        fr.loops[-1]['cont'].append(st)
        return None

    # -- loops ------------------------------------------------------------
    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        if self._alive(st) is None:
            return None
        lits = _literals(it)
        if lits is not None and not s.orelse and not any(isinstance(n,
                (ast.Break, ast.Continue)) for b in s.body
                for n in ast.walk(b)):
            for x in lits:
                self.assign(s.target, x, fr, st, s)
                st = self.block(s.body, fr, st)
                if st is None:
                    return None
            return st
        if fr.func is not None:
            self.loop_iters.setdefault(fr.func.qual, set()).add(it)
        src, bind = self.iteration(it, st)
        return self._loop(s, fr, st, ('for', src, it), lambda x:
            self.assign(s.target, bind, fr, x, s), s.body, s.orelse)

    def s_While(self, s, fr, st):
        # The test is re-evaluated each iteration: evaluate under the loop.
        return self._loop(s, fr, st, ('while', None, None), None, s.body,
            s.orelse, test=s.test)

    def _loop(self, s, fr, st, ctx, binder, body, orelse, test=None):
        base_ctx, base_guard = st.ctx, st.guard
        lid = '%s:%d' % (fr.func.short if fr.func else '', s.lineno)
        ctx = ctx + (lid,)
        n0 = len(base_guard)

        def once(phis):
            x = st.copy()
            x.ctx = base_ctx + (ctx,)
            for (kind, fid, name), p in phis.items():
                if kind == 'var':
                    x.frames[fid][name] = p
                else:
                    x.heap[name] = p
            if test is not None:
                c = self.cond(test, fr, x)
                if c is not TRUE:
                    x.guard = _extend(x.guard, c) or x.guard
            if binder:
                binder(x)
            n = len(x.guard)
            fr.loops.append({'cont': [], 'brk': []})
            y = self.block(body, fr, x)
            lp = fr.loops.pop()
            exits = lp['cont'] + ([y] if y is not None else [])
            outs = [e for e in exits]
            if outs:
                m = outs[-1].copy()
                for o in reversed(outs[:-1]):
                    c = and_(*o.guard[n:])
                    m = self._merge_states(c, o, m)
                if len(outs) > 1:
                    g = outs[0].guard[:n]
                    m.guard = _extend(g, or_(*[and_(*o.guard[n:])
                        for o in outs])) or g
            else:
                m = None
            return m, lp['brk'], n

        # Trial pass to find loop-carried state.
        self.silent += 1
        nret = len(fr.returns)
        m, brk, _ = once({})
        del fr.returns[nret:]
        self.silent -= 1
        phis = {}
        cands = ([m] if m is not None else []) + brk
        for z in cands:
            for fid, env in z.frames.items():
                if fid not in st.frames:
                    continue
                for nm, v in env.items():
                    o = st.frames[fid].get(nm)
                    if o is not None and o is not v:
                        phis[('var', fid, nm)] = mk('phi', lid,
                            '%s#%d' % (nm, fid), o)
            for loc, v in z.heap.items():
                o = st.heap.get(loc, loc)
                if o is not v and not _mentions_loop(loc, ctx):
                    phis[('heap', None, loc)] = mk('phi', lid, show(loc), o)
        ev0, nret = len(self.events), len(fr.returns)
        m, brk, n = once(phis)
        if self.track is not None and ctx[0] == 'for' and not self.silent:
            self._stops(ev0, ctx, [z.guard[n0:] for z in brk] + [
                z.guard[n0:] for z, _v in fr.returns[nret:]])
        # Exit state.
        out = st.copy()
        out.ctx, out.guard = base_ctx, base_guard
        if m is not None or brk:
            allx = ([m] if m is not None else []) + brk
            fids = set(st.frames)
            for fid in fids:
                names = set()
                for z in allx:
                    names |= set(z.frames.get(fid, {}))
                for nm in names:
                    vals = [z.frames[fid][nm] for z in allx
                        if nm in z.frames.get(fid, {})]
                    p = phis.get(('var', fid, nm))
                    o = st.frames[fid].get(nm)
                    gs = [(z is not m, and_(*z.guard[n0:]),
                        z.frames[fid].get(nm)) for z in allx
                        if fid in z.frames]
                    out.frames[fid][nm] = self._loop_value(
                        lid, ctx, p, o, vals, gs, test is not None)
            locs = set()
            for z in allx:
                locs |= set(z.heap)
            for loc in locs:
                vals = [z.heap.get(loc, loc) for z in allx]
                p = phis.get(('heap', None, loc))
                o = st.heap.get(loc, loc)
                if _mentions_loop(loc, ctx):
                    continue
                gs = [(z is not m, and_(*z.guard[n0:]), v)
                    for z, v in zip(allx, vals)]
                out.heap[loc] = self._loop_value(
                    lid, ctx, p, o, vals, gs, test is not None)
            for z in allx:
                for k, v in z.alias.items():
                    out.alias.setdefault(k, v)
        if orelse:
            return self.block(orelse, fr, out)
        return out

    def _stops(self, ev0, ctx, ways):
        """What a loop does is done before one of its elements stops it."""
        if not ways:
            return
        b = mk('before', or_(*[and_(*g) for g in ways]))
        for e in self.events[ev0:]:
            if e.kind not in ('raise', 'assert', 'return', 'inner-return') \
                    and ctx in e.ctx:
                e.guard = tuple(e.guard) + (b,)

    def _loop_value(self, lid, ctx, p, init, vals, ways, is_while):
        """ways: (leaves the loop?, path condition, value) of each way
        through the body."""
        brk = any(b for b, _g, _v in ways)
        if p is not None:
            self.bodies[p] = tuple(sorted(set(vals), key=lambda t: t.n))
            t = mk('turn', *[mk('tuple', const(b), g, v)
                for b, g, v in ways if v is not None])
            self.turns[p] = t if ctx[1] is None else mk('comp', 'list', t,
                ((ctx[1], ()),))
        if len(vals) == 1 and not brk and p is not None and not is_while:
            v = vals[0]
            r = self._search(lid, ctx, p, init, ways) if self.track is not \
                None and init is not None else None
            if r is None:
                r = self._closed_form(ctx, p, v, init)
            if r is not None:
                return r
        if p is None and init is not None:
            u = set(vals)
            if u == {init}:
                return init
        if p is not None and all(v is p for v in vals):
            return init
        if p is not None and init is not None and not is_while:
            r = self._search(lid, ctx, p, init, ways)
            if r is not None:
                return r
        more = ()
        if self.track is not None:
            more = (ctx[1] if ctx[1] is not None else NONE, tuple(
                (const(b), g, v) for b, g, v in ways if v is not None))
        return mk('loopval', lid, init if init is not None else NONE,
            tuple(sorted(set(vals), key=lambda t: t.n)), *more)

    def _search(self, lid, ctx, p, init, ways):
        """A loop that sets p to one value once some element satisfies a
        condition."""
        stay = [v for b, _g, v in ways if not b]
        left = [(g, v) for b, g, v in ways if b]
        if len(stay) != 1 or any(v is None for _b, _g, v in ways):
            return None
        v = stay[0]
        if left:
            if v is not p or len(set(x for _g, x in left)) != 1:
                return None
            c, v = or_(*[g for g, _x in left]), left[0][1]
        elif v.op == 'ite' and v.a[2] is p:
            c, v = v.a[0], v.a[1]
        elif v.op == 'ite' and v.a[1] is p:
            c, v = not_(v.a[0]), v.a[2]
        else:
            v = _sameitem(v, p)
            if v is None:
                return None
            c, v = v
        mine = lambda t: t.op == 'phi' and t.a[0] == lid
        if contains_any(c, mine) or _mentions_loop(v, ctx):
            return None
        if v.op == 'setitem' and v.a[0] is p:
            if any(contains_any(x, mine) for x in v.a[1:]):
                return None
        elif contains_any(v, mine):
            return None
        if v.op == 'setitem' and init.op == 'setitem' and \
                v.a[1] is init.a[1] and not contains(v.a[2], p):
            w = mk('setitem', init.a[0], *v.a[1:])
        else:
            w = subst(v, {p: init})
        return ite(_quant('anyq', c, ((ctx[1], ()),)), w, init)

    def _by_key(self, ctx, p, v, init, conds):
        """A loop that extends lists kept under constant keys."""
        if self.track is None or v.op != 'setitem' or init is None or conds:
            return None
        new, t = {}, v
        while t.op == 'setitem' and is_const(t.a[1]):
            if t.a[1] in new or not _lookup(t.a[0], t.a[1]).op == 'item':
                return None
            new[t.a[1]] = t.a[2]
            t = t.a[0]
        if t is not p:
            return None
        out = init
        for k, x in reversed(list(new.items())):
            here = mk('item', p, k)
            r = self._closed_form(ctx, here, x, _lookup(init, k))
            if r is None or contains(r, p):
                return None
            out = _setitem(out, k, r)
        return out

    def _closed_form(self, ctx, p, v, init):
        """Recognise accumulator idioms: sums, list and dict building."""
        conds = []
        while v.op == 'ite':
            if v.a[2] is p:
                conds.append(v.a[0])
                v = v.a[1]
            elif v.a[1] is p:
                conds.append(not_(v.a[0]))
                v = v.a[2]
            else:
                break
        if any(contains(c, p) for c in conds):
            return None
        r = self._by_key(ctx, p, v, init, conds)
        if r is not None:
            return r
        if v.op in ('ite', 'setitem'):
            x = _appended(v, p)
            if x is not None and x is not p:
                c = _when(v, p)
                if c is not TRUE:
                    conds.append(c)
                v = mk('append', p, x)
        gens = ((ctx[1], tuple(conds)),)
        if v.op == 'mut' and v.a[1] == 'setitem' and v.a[0] is p and \
                not any(contains(x, p) for x in v.a[2]):
            return mk('mut', init, 'setitem*', (_comp('dict', mk('tuple',
                *v.a[2]), gens),), ())
        if v.op == 'ite':
            a, b = v.a[1], v.a[2]
            if a.op == b.op == 'append' and a.a[0] is p and b.a[0] is p:
                v = mk('append', p, ite(v.a[0], a.a[1], b.a[1]))
            elif a.op == b.op == 'setitem' and a.a[0] is p and b.a[0] is p \
                    and a.a[1] is b.a[1]:
                v = mk('setitem', p, a.a[1], ite(v.a[0], a.a[2], b.a[2]))
        if v.op == 'append' and v.a[0] is p and not contains(v.a[1], p):
            c = _comp('list', v.a[1], gens)
            return c if init.op == 'list' and not init.a \
                else _concat(init, c)
        if v.op == 'concat' and v.a[0] is p and len(v.a) == 2 \
                and not contains(v.a[1], p):
            c = mk('call', mk('glob', 'lchain'), (_comp('gen', v.a[1], gens),),
                ())
            return c if init.op == 'list' and not init.a \
                else _concat(init, c)
        g = _counting(p, v, init)
        if g is not None:
            c = mk('comp', 'count', mk('tuple', *g), gens)
            return c if init.op != 'comp' else mk('tally', init, c)
        g = _grouping(p, v)
        if g is None and init.op == 'call' and \
                _fname(init.a[0]) == 'defaultdict' and init.a[1] and \
                show(init.a[1][0]) == 'list' and v.op == 'setitem' and \
                v.a[0] is p and v.a[2].op == 'append' and \
                v.a[2].a[0] is mk('item', p, v.a[1]) and \
                not contains(v.a[2].a[1], p):
            return mk('comp', 'group', mk('tuple', v.a[1], v.a[2].a[1]),
                gens)
        if g is not None and init.op == 'dict' and not init.a:
            return mk('comp', 'group', mk('tuple', *g), gens)
        if v.op == 'setitem' and v.a[0] is p and not contains(v.a[1], p) \
                and not contains(v.a[2], p):
            c = _comp('dict', mk('tuple', v.a[1], v.a[2]), gens)
            return c if init.op == 'dict' and not init.a \
                else mk('dictmerge', init, c)
        if v.op in ('dictmerge', 'setmerge') and v.a[0] is p and \
                v.a[1].op == 'comp' and not contains(v.a[1], p) and \
                v.a[1].a[0] == ('dict' if v.op == 'dictmerge' else 'set'):
            c = _comp(v.a[1].a[0], v.a[1].a[1], gens + v.a[1].a[2])
            return c if init.op in ('dict', 'setdisp') and not init.a \
                else mk(v.op, init, c)
        if v.op in ('dictmerge', 'setmerge') and v.a[0] is p and \
                init.op == 'setdisp' and not contains(v.a[1], p) and \
                v.a[1].op in ('elem', 'param', 'attr', 'item'):
            c = _comp('set', mk('elem', v.a[1], 0), gens + ((v.a[1], ()),))
            return c if not init.a else mk('setmerge', init, c)
        if v.op == 'setadd' and v.a[0] is p and not contains(v.a[1], p):
            c = _comp('set', v.a[1], gens)
            return c if init.op == 'setdisp' and not init.a \
                else mk('setmerge', init, c)
        if v.op == 'poly':
            d = sub(v, p)
            if not contains(d, p):
                return add(init, _sum(d, gens))
        if v.op in ('and', 'or') and p in v.a:
            rest = [x for x in v.a if x is not p]
            if not any(contains(x, p) for x in rest):
                q = _quant('allq' if v.op == 'and' else 'anyq',
                    (and_ if v.op == 'and' else or_)(*rest), gens)
                return (and_ if v.op == 'and' else or_)(init, q)
        if (v is TRUE or v is FALSE) and conds:
            c = _quant('anyq', TRUE, gens)
            return or_(c, init) if v is TRUE else and_(not_(c), init)
        if not contains(v, p) and not conds:
            return mk('last', v, gens)
        return None

    def iteration(self, it, st):
        """(source, bound element) for iterating over term `it`."""
        src, el = self._iter(it, st)
        return src, el

    def _iter(self, it, st):
        op = it.op
        if op == 'call':
            f, args = it.a[0], it.a[1]
            nm = _fname(f)
            if f.op == 'attr' and f.a[1] in DICT_ITER and not args:
                d = f.a[0]
                k = self._elem(d, st)
                kind = DICT_ITER[f.a[1]]
                if kind == 'keys':
                    return d, k
                if kind == 'values':
                    return d, mk('item', d, k)
                return d, mk('tuple', k, mk('item', d, k))
            if nm in ('list', 'sorted', 'reversed', 'set', 'tuple', 'iter',
                    'frozenset', 'OrderedDict', 'dict', 'tqdm', 'unique') \
                    and len(args) >= 1:
                if nm in ('OrderedDict', 'dict') and args[0].op == 'comp':
                    return it, self._elem(it, st)
                s, e = self._iter(args[0], st)
                return it, e
            if nm == 'enumerate' and args:
                s, e = self._iter(args[0], st)
                return self._over(it, (s,) + args[1:]), mk('tuple', mk('idx',
                    s, self._depth(s, st)), e)
            if nm in ('zip', 'izip') and args:
                ss, es = zip(*[self._iter(a, st) for a in args])
                ps = [_permuted(a) for a in args]
                if any(ps) and len(set(ps)) > 1:
                    # What is permuted is not paired element by element.
                    es = [e if p is None else self._elem(a, st)
                        for e, p, a in zip(es, ps, args)]
                    return it, mk('tuple', *es)
                return self._over(it, ss), mk('tuple', *es)
            if nm in ('range', 'xrange') and len(args) == 1:
                n = args[0]
                if n.op == 'call' and _fname(n.a[0]) == 'len' and n.a[1]:
                    s = n.a[1][0]
                    return it, mk('idx', s, self._depth(s, st))
        if op == 'comp' and it.a[0] in ('list', 'gen', 'set') \
                and len(it.a[2]) == 1 and not it.a[2][0][1]:
            return it.a[2][0][0] if it.a[0] != 'set' else it, it.a[1]
        return it, self._elem(it, st)

    def _over(self, it, sources):
        """it over what its arguments range over."""
        if it.a[1] == tuple(sources) or any(a is not b and not (
                a.op == 'comp' and a.a[0] != 'set')
                for a, b in zip(it.a[1], sources)):
            return it
        return mk('call', it.a[0], tuple(sources), it.a[2])

    def _depth(self, s, st):
        return sum(1 for c in st.ctx if c[1] is not None
            and _root_iter(c[1]) is _root_iter(s))

    def _elem(self, s, st):
        return mk('elem', s, self._depth(s, st))

    # -- expressions ------------------------------------------------------
    def cond(self, e, fr, st):
        return _nonempty(self.ev(e, fr, st))

    def ev(self, e, fr, st, quiet=False):
        self.tick()
        if quiet:
            self.silent += 1
        try:
            return getattr(self, 'e_' + type(e).__name__, self.e_default)(
                e, fr, st)
        finally:
            if quiet:
                self.silent -= 1

    def e_default(self, e, fr, st):
        self.warn.append('expr %s' % type(e).__name__)
        return mk('opaque', ast.dump(e))

    def e_Constant(self, e, fr, st):
        return const(e.value)

    def e_JoinedStr(self, e, fr, st):
        return mk('opaque', ast.dump(e))

    def e_Name(self, e, fr, st):
        nm = e.id
        if nm in ('None', 'True', 'False'):
            return {'None': NONE, 'True': TRUE, 'False': FALSE}[nm]
        f = fr
        while f is not None:
            env = st.frames.get(f.fid)
            if env is None:
                env = getattr(f, 'snapshot', {})
            if nm in env:
                return self._current(env[nm], st)
            f = f.parent
        return self._global(nm, fr.module)

    def _current(self, v, st):
        """The updated value of the object a variable refers to."""
        if self.track is None or not st.heap:
            return v
        if v.op == 'ite':
            return ite(v.a[0], self._current(v.a[1], st),
                self._current(v.a[2], st))
        h = st.heap.get(unmut(v))
        if h is not None and h.op == 'mut':
            x = h
            while x.op == 'mut' and x is not v:
                x = x.a[0]
            if x is v:
                return h
        return v

    def _global(self, nm, module):
        if nm in module.classes:
            return mk('class', module.classes[nm].qual)
        if nm in module.functions:
            return self._fn(module.functions[nm].qual)
        if nm in module.imports:
            return self._global_dotted(module.imports[nm])
        if nm in module.consts:
            n = module.consts[nm]
            if isinstance(n, ast.Constant):
                return const(n.value)
            if isinstance(n, ast.UnaryOp) and isinstance(
                    n.operand, ast.Constant):
                try:
                    return const(ast.literal_eval(n))
                except Exception:
                    pass
            if self._pure_const(n):
                key = (module.name, nm)
                if key not in self.constcache:
                    self.constcache[key] = None
                    fr = Frame(-1, None, None, module, 0)
                    st = State()
                    st.frames[-1] = {}
                    self.silent += 1
                    self.callstack.append(None)
                    self.constcache[key] = self.ev(n, fr, st)
                    self.callstack.pop()
                    self.silent -= 1
                if self.constcache[key] is not None:
                    return self.constcache[key]
            return mk('glob', module.name + '.' + nm)
        return mk('glob', nm)

    def _pure_const(self, n):
        """Arithmetic over numbers, names and calls of math functions."""
        if isinstance(n, ast.Attribute):
            return n.attr == 'co_argcount'
        if isinstance(n, (ast.BinOp, ast.UnaryOp, ast.Call)):
            for x in ast.walk(n):
                if not isinstance(x, (ast.BinOp, ast.UnaryOp, ast.Call,
                        ast.Constant, ast.Name, ast.Attribute, ast.operator,
                        ast.unaryop, ast.expr_context)):
                    return False
                if isinstance(x, ast.Call):
                    d = ast.unparse(x.func).split('.')[-1]
                    if d not in ('log', 'exp', 'sqrt', 'float', 'abs',
                            'lgamma', 'gammaln'):
                        return False
            return True
        return False

    def _global_dotted(self, d):
        r = self.ix.resolve_dotted(d)
        if isinstance(r, Class):
            return mk('class', r.qual)
        if isinstance(r, Func):
            return self._fn(r.qual)
        if isinstance(r, Module):
            return mk('glob', r.name)
        return mk('glob', d)

    def _fn(self, qual):
        return mk('func', qual)

    def e_Attribute(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        return self.getattr(b, e.attr, st, fr, e)

    def getattr(self, b, name, st, fr=None, node=None):
        if b.op == 'glob':
            return self._global_dotted(b.a[0] + '.' + name) \
                if not (b.a[0] in self.ix.modules and name in
                    self.ix.modules[b.a[0]].consts) \
                else self._global(name, self.ix.modules[b.a[0]])
        if b.op == 'class':
            c = self.ix.resolve_dotted(b.a[0])
            if isinstance(c, Class):
                f = c.lookup(name)
                if f is not None:
                    if f.is_classmethod:
                        return mk('bound', f.qual, b)
                    return mk('func', f.qual)
                for k in c.mro():
                    if name in k.attrs and isinstance(
                            k.attrs[name], ast.Constant):
                        return const(k.attrs[name].value)
        if name == 'co_argcount' and b.op == 'attr' and b.a[0].op == 'func' \
                and b.a[1] in ('func_code', '__code__'):
            g = self.ix.resolve_dotted(b.a[0].a[0])
            if isinstance(g, Func):
                return const(len(g.params))
        if b.op == 'ite':
            return ite(b.a[0], self.getattr(b.a[1], name, st, fr, node),
                self.getattr(b.a[2], name, st, fr, node))
        loc = mk('attr', b, name)
        if loc in st.heap:
            return st.heap[loc]
        c = self.typeof(b)
        if isinstance(c, Class):
            f = c.lookup(name)
            if f is not None:
                if 'property' in f.decorators and fr is not None:
                    return self._inline(f, c, [b], {}, fr, st, node, b)
                return mk('bound', f.qual, b)
        return loc

    def e_Subscript(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        if isinstance(e.slice, ast.Slice):
            s = [self.ev(x, fr, st) if x is not None else NONE
                for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if s == [NONE, NONE, NONE]:
                return mk('call', mk('glob', 'list'), (b,), ())
            if s == [NONE, NONE, const(-1)]:
                return mk('call', mk('glob', 'reversed'), (b,), ())
            return mk('slice', b, *s)
        i = self.ev(e.slice, fr, st)
        return self.getitem(b, i, st)

    def e_Slice(self, e, fr, st):
        s = [self.ev(x, fr, st) if x is not None else NONE
            for x in (e.lower, e.upper, e.step)]
        return mk('sliceobj', *s)

    def getitem(self, b, i, st=None):
        if b.op in ('list', 'tuple') and i.op == 'num':
            k = int(i.a[0])
            if -len(b.a) <= k < len(b.a):
                return b.a[k]
        if b.op == 'dict':
            for k, v in b.a:
                if k is i:
                    return v
        while b.op == 'mut' and b.a[1] in ('setitem', 'setitem*'):
            if b.a[1] == 'setitem' and b.a[2][0] is i:
                return b.a[2][1]
            b = b.a[0]
        if b.op == 'setitem':
            if b.a[1] is i:
                return b.a[2]
            if is_const(b.a[1]) and is_const(i):
                return self.getitem(b.a[0], i, st)
        if b.op == 'ite':
            return ite(b.a[0], self.getitem(b.a[1], i, st),
                self.getitem(b.a[2], i, st))
        if b.op == 'comp' and b.a[0] == 'dict' and len(b.a[2]) == 1 and \
                b.a[1].op == 'tuple' and b.a[1].a[0].op == 'elem':
            # {k: f(k) for k in X}[i]  ->  f(i)
            x, d = b.a[1].a[0].a
            n = mk('idx', *i.a) if i.op == 'elem' and i.a[0] is x else \
                mk('posof', x, i)
            return subst(b.a[1].a[1], {b.a[1].a[0]: i, mk('idx', x, d): n})
        if i.op == 'idx' and i.a[0] is b:
            return mk('elem', b, i.a[1])
        if b.op == 'call' and b.a[0].op == 'attr' \
                and DICT_ITER.get(b.a[0].a[1]) == 'values' and not b.a[1]:
            return mk('item', b.a[0].a[0], self.getitem(mk('call', mk('attr',
                b.a[0].a[0], 'keys'), (), ()), i))
        loc = mk('item', b, i)
        if st is not None and loc in st.heap:
            return st.heap[loc]
        return loc

    def e_Tuple(self, e, fr, st):
        return mk('tuple', *[self.ev(x, fr, st) for x in e.elts])

    def e_List(self, e, fr, st):
        return mk('list', *[self.ev(x, fr, st) for x in e.elts])

    def e_Set(self, e, fr, st):
        return mk('setdisp', *[self.ev(x, fr, st) for x in e.elts])

    def e_Dict(self, e, fr, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                return mk('opaque', ast.dump(e))
            kk = self.ev(k, fr, st)
            items.append((kk, self.ev(v, fr, st)))
        return mk('dict', *items)

    def e_Starred(self, e, fr, st):
        return mk('star', self.ev(e.value, fr, st))

    def e_Lambda(self, e, fr, st):
        return self._closure(e, fr, st, '<lambda>')

    def e_IfExp(self, e, fr, st):
        c = self.cond(e.test, fr, st)
        if c is TRUE:
            return self.ev(e.body, fr, st)
        if c is FALSE:
            return self.ev(e.orelse, fr, st)
        g = st.guard
        st.guard = _extend(g, c) or g
        a = self.ev(e.body, fr, st)
        st.guard = _extend(g, not_(c)) or g
        b = self.ev(e.orelse, fr, st)
        st.guard = g
        return ite(c, a, b)

    def e_BoolOp(self, e, fr, st):
        vals = []
        g = st.guard
        is_and = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, fr, st)
            vals.append(v)
            st.guard = _extend(st.guard, v if is_and else not_(v)) \
                or st.guard
        st.guard = g
        if not is_and and len(vals) == 2 and not _isbool(vals[0]) \
                and not _isbool(vals[1]):
            return mk('orelse', *vals)
        return and_(*vals) if is_and else or_(*vals)

    def e_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return not_(v)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('invert', v)

    def e_BinOp(self, e, fr, st):
        x = self.ev(e.left, fr, st)
        y = self.ev(e.right, fr, st)
        return self.binop(type(e.op).__name__, x, y, fr)

    def binop(self, op, x, y, fr=None):
        if op == 'Add':
            if _is_seq(x) or _is_seq(y) or _is_str(x) or _is_str(y):
                return _concat(x, y)
            return add(x, y)
        if op == 'Sub':
            return sub(x, y)
        if op == 'Mult':
            if _is_seq(x) or _is_str(x):
                return mk('repeat', x, y)
            if _is_seq(y):
                return mk('repeat', y, x)
            return mul(x, y)
        if op == 'Div':
            if x.op == 'num' and y.op == 'num' and y.a[0] != 0:
                return const(0) if False else div(x, y)
            return div(x, y)
        if op == 'Pow':
            return power(x, y)
        if op == 'Mod' and (_is_str(x)):
            return mk('format', x, y)
        if op == 'BitOr' and _isbool(x) and _isbool(y):
            return or_(x, y)
        if op == 'BitAnd' and _isbool(x) and _isbool(y):
            return and_(x, y)
        return mk(op.lower(), x, y)

    def e_Compare(self, e, fr, st):
        vals = [self.ev(x, fr, st) for x in [e.left] + e.comparators]
        out = []
        names = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge',
            'Eq': 'eq', 'NotEq': 'ne', 'Is': 'is', 'IsNot': 'isnot',
            'In': 'in', 'NotIn': 'notin'}
        for o, x, y in zip(e.ops, vals, vals[1:]):
            nm = names[type(o).__name__]
            if nm in ('in', 'notin'):
                y = _strip_container(y)
            out.append(cmp_(nm, x, y))
        return and_(*out)

    def e_Yield(self, e, fr, st):
        v = self.ev(e.value, fr, st) if e.value is not None else NONE
        self.emit('yield', fr, st, e, value=v)
        return mk('sent')

    def _comprehension(self, kind, elt, gens, fr, st):
        g0, c0 = st.guard, st.ctx
        saved = dict(st.frames[fr.fid])
        out = []
        for g in gens:
            it = self.ev(g.iter, fr, st)
            src, bind = self.iteration(it, st)
            self.assign(g.target, bind, fr, st, g.iter)
            st.ctx = st.ctx + (('for', src, it, 'comp:%d' % g.iter.lineno),)
            conds = []
            for c in g.ifs:
                cv = self.ev(c, fr, st)
                conds.append(cv)
                st.guard = _extend(st.guard, cv) or st.guard
            out.append((src, tuple(conds)))
        v = self.ev(elt, fr, st) if not isinstance(elt, tuple) else \
            mk('tuple', self.ev(elt[0], fr, st), self.ev(elt[1], fr, st))
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            if n in saved:
                st.frames[fr.fid][n] = saved[n]
            else:
                st.frames[fr.fid].pop(n, None)
        st.guard, st.ctx = g0, c0
        return _comp(kind, v, tuple(out))

    def e_ListComp(self, e, fr, st):
        return self._comprehension('list', e.elt, e.generators, fr, st)

    def e_GeneratorExp(self, e, fr, st):
        return self._comprehension('gen', e.elt, e.generators, fr, st)

    def e_SetComp(self, e, fr, st):
        return self._comprehension('set', e.elt, e.generators, fr, st)

    def e_DictComp(self, e, fr, st):
        return self._comprehension('dict', (e.key, e.value), e.generators,
            fr, st)

    # -- calls ------------------------------------------------------------
    def e_Call(self, e, fr, st):
        # Receiver method calls on locals/locations that mutate.
        f = None
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, fr, st)
            f = self.getattr(b, e.func.attr, st, fr, e)
        else:
            f = self.ev(e.func, fr, st)
        args, kw, stars = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                if v.op in ('tuple', 'list'):
                    args.extend(v.a)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                if v.op == 'dict' and all(x.op == 'const' for x, _ in v.a):
                    for x, y in v.a:
                        kw[x.a[1]] = y
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, fr, st, e)

    def call(self, f, args, kw, fr, st, node):
        # An ordered map over processes (C21) is called like a map.
        if self.track is not None and f.op in ('ite', 'func'):
            f = _called(f)
        if f.op == 'ite':
            m = _same_mutator(f)
            if m is not None and not isinstance(self.typeof(m.a[0]), Class):
                return self._mutate(m, m.a[0], m.a[1], args, kw, fr, st,
                    node)
            g = st.guard
            c = f.a[0]
            a = b = None
            st.guard = _extend(g, c) or g
            a = self.call(f.a[1], args, kw, fr, st, node)
            st.guard = _extend(g, not_(c)) or g
            b = self.call(f.a[2], args, kw, fr, st, node)
            st.guard = g
            return ite(c, a, b)
        r = self._builtin(f, args, kw, fr, st, node)
        if r is not None:
            return r
        if f.op == 'closure' and f in self.closures:
            func, dfr, snap = self.closures[f]
            if not any(x is func for x in self.callstack) and \
                    len(self.callstack) < self.max_depth + 6:
                return self._inline(func, dfr.cls, args, kw, fr, st, node,
                    None, parent=dfr, snapshot=snap)
        elif f.op == 'func':
            fn = self.ix.resolve_dotted(f.a[0])
            if isinstance(fn, Func):
                # Explicit base call: Base.method(self, ...).
                cls = fn.cls
                recv = None
                if fn.cls and not fn.is_static and args:
                    recv = args[0]
                    t = self.typeof(args[0])
                    if isinstance(t, Class) and fn.cls in t.mro():
                        cls = t
                return self._maybe_inline(fn, cls, args, kw, fr, st, node,
                    recv, f)
        elif f.op == 'bound':
            fn = self.ix.resolve_dotted(f.a[0])
            recv = f.a[1]
            if isinstance(fn, Func):
                if fn.is_classmethod:
                    c = self.ix.resolve_dotted(recv.a[0]) if \
                        recv.op == 'class' else self.typeof(recv)
                    return self._maybe_inline(fn, c, [recv] + args, kw, fr,
                        st, node, recv, f)
                c = self.typeof(recv)
                a = args if fn.is_static else [recv] + args
                return self._maybe_inline(fn, c, a, kw, fr, st, node, recv, f)
        elif f.op == 'class':
            c = self.ix.resolve_dotted(f.a[0])
            if self.track is not None and isinstance(c, Class):
                args, kw = _in_place(c, args, kw)
            r = mk('new', f.a[0], tuple(args), _kw(kw))
            self._emit_call(f, args, kw, fr, st, node, None,
                f.a[0].split('.')[-1], self.ix.resolve_dotted(f.a[0]))
            return r
        elif f.op == 'super':
            pass
        # Opaque call.
        recv, name = None, _fname(f)
        if f.op == 'attr':
            recv = f.a[0]
            if self.track is not None and name in FACES and \
                    '**' not in kw:
                args, kw = _spread_args(FACES[name], list(args), kw)
        if self.track is not None:
            args = [self._body(a, fr, st, node) for a in args]
            kw = {k: self._body(v, fr, st, node) for k, v in kw.items()}
        ev = self._emit_call(f, args, kw, fr, st, node, recv, name, None)
        return self._opaque_result(f, args, kw, ev)

    def _body(self, a, fr, st, node):
        """The functions in what is given to an opaque call, by what they
        compute and do."""
        if not isinstance(a, T) or not self.closures:
            return a
        fs = [x for x in subterms(a) if x.op == 'closure' and
            x in self.closures]
        mp = {x: self._does(x, fr, st, node) for x in fs}
        return subst(a, mp) if mp else a

    def _does(self, a, fr, st, node):
        func, dfr, snap = self.closures[a]
        if any(x is func for x in self.callstack) or \
                len(self.callstack) >= self.max_depth + 6 or func.vararg:
            return a
        self.lambdas += 1
        ps = [mk('param', 'arg%d.%d' % (self.lambdas, i))
            for i in range(len(func.params))]
        old, self.events, n = self.events, [], self.silent
        self.silent = 0
        s2 = st.copy()
        s2.guard, s2.ctx = (), ()
        try:
            r = self._inline(func, dfr.cls, ps, {}, fr, s2, node,
                None, parent=dfr, snapshot=snap)
            evs = self.events
        finally:
            self.events, self.silent = old, n
            self.lambdas -= 1
        return mk('lambda', len(ps), r, mk('does', *[t for t in map(
            self._effect, evs) if t is not None]))

    def _effect(self, e):
        """An effect of a function value, as a term."""
        args = [x for x in (e.args or ()) if isinstance(x, T)]
        if e.kind == 'write':
            k, loc = e.op, e.loc
            v = e.value if e.op == '=' else mk('tuple', *args)
        elif e.kind == 'call' and not e.inlined and (e.name or '').split(
                '@')[0] in self.track:
            k, loc = e.name.split('@')[0], e.recv
            loc = NONE if loc is None else loc
            if e.fn.op == 'bound' and args and args[0] is loc:
                args = args[1:]
            v = mk('tuple', *(args + [mk('kw', const(n), x)
                for n, x in sorted(e.kw.items())]))
        else:
            return None
        if not isinstance(v, T):
            return None
        gens = tuple((f[1] if f[1] is not None else mk('while'), ())
            for f in e.ctx)
        t = mk('tuple', mk('glob', k), loc, v, and_(*e.guard))
        return mk('comp', 'eff', t, gens) if gens else t

    def _opaque_result(self, f, args, kw, ev):
        return mk('call', f, tuple(args), _kw(kw))

    def _emit_call(self, f, args, kw, fr, st, node, recv, name, target,
            inlined=False):
        e = self._emit(f, args, kw, fr, st, node, recv, name, target, inlined)
        if self.track is not None and not inlined and recv is not None and \
                name in self.track:
            for b in _alts(recv):
                a = tuple(args)
                if f.op == 'bound' and a and a[0] is recv:
                    a = a[1:]
                if _is_loc(b) or unmut(b).op == 'new':
                    st.heap[unmut(b)] = mk('mut', b, name, a, _kw(kw))
        return e

    def _emit(self, f, args, kw, fr, st, node, recv, name, target, inlined):
        return self.emit('call', fr, st, node, fn=f, args=tuple(args),
            kw=dict(kw), recv=recv, name=name, target=target,
            inlined=inlined)

    def _maybe_inline(self, fn, cls, args, kw, fr, st, node, recv, f):
        ok = (len(self.callstack) < self.max_depth
            and (fn not in self.callstack or
                fn.name in getattr(self.inline_pred, 'deep', ()) and
                self.callstack.count(fn) < 3)
            and not self._virtual(fn, recv, f)
            and self.inline_pred(fn, recv, self))
        if ok:
            self._emit_call(f, args, kw, fr, st, node, recv, fn.name, fn,
                inlined=True)
            return self._inline(fn, cls or fn.cls, args, kw, fr, st, node,
                recv)
        a = args
        if recv is not None and fn.cls and not fn.is_static and \
                not (f.op == 'func'):
            a = args[1:]
        if self.track is not None:
            a, kw = self._positional(fn, cls, list(a), kw, fr, st, recv
                if not (f.op == 'func') and fn.cls and not fn.is_static
                else None)
            a = [self._body(x, fr, st, node) for x in a]
            kw = {k: self._body(x, fr, st, node) for k, x in kw.items()}
            if f.op != 'bound':
                args = a
        self._emit_call(f, a, kw, fr, st, node, recv, fn.name, fn)
        if f.op == 'func' and fn.cls and not fn.is_static and args:
            return mk('call', mk('attr', args[0], fn.name + '@' +
                fn.cls.name), tuple(args[1:]), _kw(kw))
        if f.op == 'bound':
            return mk('call', mk('attr', recv, fn.name), tuple(a), _kw(kw))
        return mk('call', f, tuple(args), _kw(kw))

    def _positional(self, fn, cls, args, kw, fr, st, recv):
        """Arguments of an opaque call, all by position."""
        if '**' in kw or fn.vararg or any(a.op == 'star' for a in args):
            return args, kw
        ps = list(zip(fn.params, fn.defaults))
        if recv is not None:
            ps = ps[1:]
        sig = []
        for p, d in ps:
            if d is not None:
                self.silent += 1
                d = self._default(d, self._new_frame(fn, cls, fn.module, 0),
                    State())
                self.silent -= 1
            sig.append((p, d))
        return _spread_args(sig, args, kw)

    def _inline(self, fn, cls, args, kw, fr, st, node, recv, parent=None,
            snapshot=None):
        self.tick()
        self.inlined.add(fn)
        fr2 = self._new_frame(fn, cls, fn.module, fr.depth + 1, parent)
        if parent is not None and parent.fid not in st.frames:
            parent.snapshot = snapshot
        env = {}
        for p, a in zip(fn.params, args):
            env[p] = a
        kw = dict(kw)
        star = kw.pop('**', None)
        rest = []
        if len(args) > len(fn.params):
            rest = args[len(fn.params):]
        for p, d in zip(fn.params, fn.defaults):
            if p in kw:
                env[p] = kw.pop(p)
            elif p not in env:
                if any(a.op == 'star' for a in args):
                    env[p] = mk('unpack', [a for a in args
                        if a.op == 'star'][0], fn.params.index(p))
                elif star is not None and d is None:
                    env[p] = mk('item', star, const(p))
                elif d is not None:
                    env[p] = self._default(d, fr2, st)
                else:
                    env[p] = mk('missing', fn.qual, p)
        if fn.vararg:
            env[fn.vararg] = mk('tuple', *rest) if not any(
                a.op == 'star' for a in rest) else rest[0].a[0] \
                if len(rest) == 1 else mk('opaque', 'varargs')
        if fn.kwarg:
            env[fn.kwarg] = mk('dict', *[(const(k), v)
                for k, v in sorted(kw.items())]) if star is None else star
        st.frames[fr2.fid] = env
        # Aliases for names passed directly.
        if isinstance(node, ast.Call):
            off = 1 if (recv is not None and fn.cls and not fn.is_static and
                len(args) == len(node.args) + 1) else 0
            for p, a in zip(fn.params[off:], node.args):
                st.alias[(fr2.fid, p)] = self._alias_of(a, fr, st)
        self.callstack.append(fn)
        live = State()
        g0 = st.guard
        work = st.copy()
        res, end = self._run_body(fn, fr2, work)
        self.callstack.pop()
        if end is None:
            # Callee never returns normally.
            self._died = st
            return mk('never')
        # Commit the callee's effects into the caller's state in place.
        st.frames.clear()
        st.frames.update({k: v for k, v in end.frames.items()
            if k != fr2.fid})
        st.heap.clear()
        st.heap.update(end.heap)
        st.alias.update(end.alias)
        st.guard = end.guard
        return res

    def _virtual(self, fn, recv, f):
        """Dynamic dispatch on a receiver of unknown concrete class."""
        if f.op != 'bound' or recv is None or recv.op in ('new', 'class'):
            return False
        if recv.op == 'param' and recv.a[0] in self.exact:
            return False
        c = self.typeof(recv)
        if not isinstance(c, Class):
            return True
        if recv.op == 'param' and recv.a[0] == 'self':
            return False
        for k in self.ix.subclasses(c, strict=True):
            if k.lookup(fn.name) is not fn:
                return True
        return False

    def _default(self, d, fr, st):
        return self.ev(d, fr, st)

    # -- builtins ---------------------------------------------------------
    def _builtin(self, f, args, kw, fr, st, node):
        if f.op == 'attr':
            recv, name = f.a
            if name in MUTATORS and not isinstance(self.typeof(recv), Class):
                return self._mutate(f, recv, name, args, kw, fr, st, node)
            if name == 'get' and args and len(args) <= 2 and not kw:
                d = args[1] if len(args) == 2 else NONE
                if recv.op == 'dict':
                    for k, v in recv.a:
                        if k is args[0]:
                            return v
                    if all(is_const(k) for k, _ in recv.a) and \
                            is_const(args[0]):
                        return d
                return ite(cmp_('in', args[0], _strip_container(recv)),
                    self.getitem(recv, args[0], st), d)
            if name == 'has_key' and len(args) == 1:
                return cmp_('in', args[0], _strip_container(recv))
            if name == 'next' and not args:
                return None
            if name == 'copy' and not args and not isinstance(
                    self.typeof(recv), Class):
                return mk('call', mk('glob', 'copy.copy'), (recv,), ())
            if name == '__getitem__' and len(args) == 1:
                return self.getitem(recv, args[0], st)
            if name in DICT_ITER and not args:
                return mk('call', mk('attr', recv, DICT_ITER[name]), (), ())
            if name in ('sum', 'all', 'any') and not args and not kw:
                return self._builtin(mk('glob', name), [recv], {}, fr, st,
                    node)
            return None
        if f.op != 'glob':
            return None
        n = f.a[0]
        last = n.split('.')[-1]
        if n in ('str', 'unicode') and len(args) == 1 and not kw and \
                _is_str(args[0]):
            return args[0]
        if n in ('sum', 'numpy.sum', 'math.fsum') and len(args) == 1 \
                and not (set(kw) - {'dtype'}):
            x = args[0]
            if x.op == 'comp' and x.a[0] in ('list', 'gen'):
                return _sum(x.a[1], x.a[2])
            if x.op in ('list', 'tuple'):
                r = const(0)
                for y in x.a:
                    r = add(r, y)
                return r
            return mk('sum', mk('elem', x, 0), ((x, ()),))
        if n in ('all', 'any', 'numpy.all', 'numpy.any') and \
                len(args) == 1 and not kw:
            x = args[0]
            q = 'allq' if last == 'all' else 'anyq'
            if x.op in ('list', 'tuple') and self.track is not None:
                return (and_ if q == 'allq' else or_)(*x.a)
            if x.op == 'comp':
                return _quant(q, x.a[1], x.a[2])
            return _quant(q, mk('elem', x, 0), ((x, ()),))
        if n == 'isinstance':
            return mk('isinstance', *args)
        if n == 'len' and len(args) == 1:
            x = args[0]
            if x.op in ('list', 'tuple', 'dict'):
                return const(len(x.a))
            x = _strip_len(x)
            return mk('call', f, (x,), ())
        if n in ('float', 'int', 'bool', 'str') and len(args) == 1:
            if n == 'float' and args[0].op == 'const' and \
                    args[0].a[0] == 'str':
                s = args[0].a[1].strip().lower()
                if s in ('inf', '+inf', 'infinity'):
                    return mk('inf')
                if s == '-inf':
                    return neg(mk('inf'))
                if s == 'nan':
                    return mk('nan')
            if n == 'float' and not _text(args[0]):
                # Numeric identity for real-valued analysis.
                return args[0]
            return None
        if n in ('numpy.inf', ):
            return mk('inf')
        if n in ('dict', 'collections.OrderedDict') and not args and not kw:
            return mk('dict')
        if n == 'dict' and not args and kw and '**' not in kw:
            return mk('dict', *[(const(k), v) for k, v in sorted(
                kw.items())])
        if n in ('dict', 'collections.OrderedDict') and len(args) == 1 \
                and not kw:
            x = args[0]
            if x.op == 'comp' and x.a[0] in ('list', 'gen') and \
                    x.a[1].op == 'tuple' and len(x.a[1].a) == 2:
                return mk('comp', 'dict', x.a[1], x.a[2])
            if x.op == 'dict' or x.op == 'comp' and x.a[0] in ('dict',
                    'group'):
                return x
        if n == 'list' and not args:
            return mk('list')
        if n == 'set' and not args:
            return mk('setdisp')
        if n == 'list' and len(args) == 1 and args[0].op == 'comp' and \
                args[0].a[0] in ('gen', 'list'):
            return mk('comp', 'list', *args[0].a[1:])
        if n == 'list' and len(args) == 1 and args[0].op == 'list':
            return args[0]
        if n == 'set' and len(args) == 1 and args[0].op == 'comp' and \
                args[0].a[0] in ('gen', 'list'):
            return mk('comp', 'set', *args[0].a[1:])
        if n == 'map' and self.track is not None:
            kw.pop('parallelism', None)
        if n in ('map', 'itertools.imap') and len(args) == 2:
            src, el = self.iteration(args[1], st)
            c0 = st.ctx
            st.ctx = st.ctx + (('for', src, args[1], 'map'),)
            v = self.call(args[0], [el], {}, fr, st, node)
            st.ctx = c0
            return _comp('list', v, ((src, ()),))
        if n == 'filter' and len(args) == 2:
            src, el = self.iteration(args[1], st)
            c0 = st.ctx
            st.ctx = st.ctx + (('for', src, args[1], 'filter'),)
            v = self.call(args[0], [el], {}, fr, st, node)
            st.ctx = c0
            return _comp('list', el, ((src, (v,)),))
        if n == 'getattr' and len(args) == 2 and is_const(args[1]) and \
                isinstance(args[1].a[1], str) and self.track is not None:
            return self.getattr(args[0], args[1].a[1], st, fr, node)
        if n == 'numpy.square' and len(args) == 1:
            return power(args[0], const(2))
        if n == 'numpy.isinf' or n == 'math.isinf':
            return None
        if n == 'super':
            c = fr.cls
            own = fr.func.cls if fr.func else None
            if own is not None:
                return mk('superobj', own.qual, mk('param', 'self'))
        return None

    def _mutate(self, f, recv, name, args, kw, fr, st, node):
        if _is_loc(recv) or recv.op in ('ite', 'orelse') and any(
                _is_loc(x) for x in _alts(recv)):
            for base in _alts(recv):
                if _is_loc(base):
                    self._heap_mut(base, name, tuple(args) + tuple(
                        v for _, v in sorted(kw.items())), fr, st, node)
            if name in ('pop', 'popitem', 'setdefault'):
                if name == 'pop' and len(args) >= 1:
                    return mk('popped', recv, args[0])
                if name == 'setdefault':
                    return self.getitem(recv, args[0], st)
                return mk('popped', recv, NONE)
            return NONE
        src = _through_copy(recv)
        if src is not None:
            self.emit('write', fr, st, node, loc=src, op=name,
                value=args[-1] if args else NONE, args=tuple(args))
        # Fresh local container: functional update.
        tgt = node.func.value if isinstance(node, ast.Call) and isinstance(
            node.func, ast.Attribute) else None
        if name == 'append' and len(args) == 1:
            nv = mk('list', *(recv.a + (args[0],))) if recv.op == 'list' \
                else mk('append', recv, args[0])
        elif name == 'extend' and len(args) == 1:
            nv = _concat(recv, args[0])
        elif name == 'add' and len(args) == 1:
            nv = mk('setadd', recv, args[0])
        elif name == 'update' and len(args) == 1 and not kw:
            nv = mk('dictmerge', recv, args[0])
        elif name == 'setdefault' and len(args) == 2:
            c = cmp_('in', args[0], _strip_container(recv))
            nv = ite(c, recv, mk('setitem', recv, args[0], args[1]))
            if tgt is not None:
                self._local_update(tgt, nv, fr, st, node)
            return self.getitem(nv, args[0], st)
        else:
            nv = mk('localmut', name, recv, tuple(args))
        if tgt is not None:
            self._local_update(tgt, nv, fr, st, node)
        if name in ('pop', 'popitem', 'setdefault'):
            return mk('popped', recv, args[0] if args else NONE)
        return NONE

# ---------------------------------------------------------------------------
# Helpers.


FACES = {
    'logpdf': (('rowid', None), ('targets', None), ('constraints', NONE),
        ('inputs', NONE)),
    'simulate': (('rowid', None), ('targets', None), ('constraints', NONE),
        ('inputs', NONE), ('N', NONE)),
    'incorporate': (('rowid', None), ('observation', None),
        ('inputs', NONE)),
    'transition_hyper_grids': (('X', None), ('n_grid', const(30))),
}


def _in_place(c, args, kw):
    """Arguments of a constructor given by name, as far as they continue
    those given by place."""
    f = c.lookup('__init__')
    a = f.node.args if isinstance(f, Func) else None
    if a is None or a.vararg or a.kwarg or '**' in kw or any(
            isinstance(x, T) and x.op == 'star' for x in args):
        return args, kw
    args, kw = list(args), dict(kw)
    for p in [x.arg for x in a.args][len(args) + 1:]:
        if p not in kw:
            break
        args.append(kw.pop(p))
    return args, kw


def _spread_args(sig, args, kw):
    """(args, kw) with named arguments moved to their positions."""
    kw = dict(kw)
    args = list(args)
    if len(args) > len(sig) or any(a.op == 'star' for a in args):
        return args, kw
    out = list(args)
    for p, d in sig[len(args):]:
        if p in kw:
            out.append(kw.pop(p))
        elif d is not None:
            out.append(d)
        else:
            return args, dict(kw)
    return out, kw


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _kw(kw):
    return tuple(sorted(kw.items()))


def _fname(f):
    if f.op == 'glob':
        return f.a[0].split('.')[-1]
    if f.op == 'attr':
        return f.a[1]
    if f.op in ('func', 'class', 'bound'):
        return f.a[0].split('.')[-1]
    return f.op


def _unset(t):
    """The container below stores into it."""
    while t.op == 'mut' and t.a[1] in ('setitem', 'setitem*'):
        t = t.a[0]
    return t


def unmut(t):
    while t.op == 'mut':
        t = t.a[0]
    return t


def _part_of_new(t):
    """A container held by an object made here."""
    while t.op == 'setitem':
        t = t.a[0]
    n = 0
    while t.op == 'attr' or n and t.op in ('setattr', 'item', 'setitem'):
        n += t.op == 'attr'
        t = t.a[0]
    return n and t.op == 'new'


def _part_of_fresh(t):
    """An element of a container made here, reached by iteration."""
    while t.op in ('setitem', 'delitem'):
        t = t.a[0]
    return t.op == 'elem'


def _is_loc(t):
    while t.op in ('attr', 'item', 'elem', 'unpack', 'mut'):
        if t.op == 'elem' or t.op == 'unpack':
            # Elements of a located container are located objects too.
            t = t.a[0]
        else:
            t = t.a[0]
    if t.op in ('call',) and t.a[0].op == 'attr' and \
            t.a[0].a[1] in ('values', 'items'):
        return _is_loc(t.a[0].a[0])
    if t.op == 'phi':
        return _is_loc(t.a[2])
    return t.op in ('param', 'class') or (
        t.op == 'glob' and t.a[0] not in ('numpy',))


def _alts(t):
    if t.op == 'ite':
        for x in _alts(t.a[1]):
            yield x
        for x in _alts(t.a[2]):
            yield x
    elif t.op == 'orelse':
        for x in t.a:
            for y in _alts(x):
                yield y
    else:
        yield t


def _ways(t, c=TRUE):
    """Alternatives of t with the conditions that select them."""
    if t.op == 'ite':
        for r in _ways(t.a[1], and_(c, t.a[0])):
            yield r
        for r in _ways(t.a[2], and_(c, not_(t.a[0]))):
            yield r
    else:
        for x in _alts(t):
            yield c, x


SHALLOW = {'dict', 'list', 'OrderedDict', 'defaultdict', 'copy', 'tuple'}


def _lookup(t, k):
    while t.op == 'setitem' and is_const(t.a[1]):
        if t.a[1] is k:
            return t.a[2]
        t = t.a[0]
    if t.op == 'dict':
        for i, v in t.a:
            if i is k:
                return v
    return mk('item', t, k)


def _through_copy(t):
    """Located object that t (inside a shallow copy) is shared with."""
    if t.op not in ('item', 'attr', 'elem'):
        return None
    b = t.a[0]
    if b.op == 'setitem':
        return None
    if b.op == 'phi' and isinstance(b.a[2], T):
        b = b.a[2]
        t = mk(t.op, b, *t.a[1:])
    if b.op == 'comp' and t.op != 'attr' and b.a[0] in ('list', 'dict',
            'gen'):
        v = b.a[1]
        if b.a[0] == 'dict':
            if v.op != 'tuple' or len(v.a) != 2:
                return None
            v = v.a[1]
        return v if _is_loc(v) else _through_copy(v)
    if b.op == 'call' and b.a[1] and _fname(b.a[0]) in SHALLOW and \
            b.a[0].op == 'glob':
        src = b.a[1][-1 if _fname(b.a[0]) == 'defaultdict' else 0]
        if not _is_loc(src):
            src = _through_copy(src)
    else:
        src = _through_copy(b)
    return None if src is None else mk(t.op, src, *t.a[1:])


def root(t):
    while t.op in ('attr', 'item', 'elem', 'unpack', 'slice'):
        t = t.a[0]
    return t


def _under(k, loc):
    while k.op in ('attr', 'item', 'mut'):
        k = k.a[0]
        if k is loc:
            return True
    return False


def _may_alias(k, loc):
    if k is loc:
        return False
    if _under(k, loc):
        return True
    if k.op == 'item' and loc.op == 'item' and k.a[0] is loc.a[0]:
        return not (is_const(k.a[1]) and is_const(loc.a[1]))
    return False


def _called(f):
    if f.op == 'func' and f.a[0] in ALIAS:
        return mk('glob', ALIAS[f.a[0]])
    if f.op == 'ite':
        return ite(f.a[0], _called(f.a[1]), _called(f.a[2]))
    return f


def _nonempty(t):
    """The truth of a container, as a condition on its elements."""
    if t.op == 'comp' and t.a[0] in ('list', 'set', 'dict'):
        return _quant('anyq', TRUE, t.a[2])
    if t.op == 'not' and t.a[0].op == 'comp':
        return not_(_nonempty(t.a[0]))
    return t


def _setitem(b, i, v):
    """b with item i replaced."""
    if b.op == 'setitem' and b.a[1] is i:
        b = b.a[0]
    return mk('setitem', b, i, v)


def _sameitem(v, p):
    """(condition, p with an item set) of a conditional update."""
    if v.op == 'setitem' and v.a[0] is p and v.a[2].op == 'ite':
        c, x, y = v.a[2].a
        old = mk('item', p, v.a[1])
        if y is old:
            return c, mk('setitem', p, v.a[1], x)
        if x is old:
            return not_(c), mk('setitem', p, v.a[1], y)
    return None


def _mentions_loop(loc, ctx):
    src = ctx[1]
    if src is None:
        return False
    roots = {_root_iter(src)}
    while True:
        # Elements of a zip are those of what is zipped.
        zips = [t for t in roots if t.op == 'call' and _fname(t.a[0]) in (
            'zip', 'izip')]
        more = {_root_iter(x) for t in zips for x in t.a[1]} - roots
        if not more:
            break
        roots |= more
    return contains_any(loc, lambda t: t.op in ('elem', 'idx') and
        _root_iter(t.a[0]) in roots)


def _permuted(t):
    """The permuted collection whose order an iteration over t has, or None
    when it has the order of what it is made of."""
    while True:
        if t.op == 'comp' and len(t.a[2]) == 1:
            if t.a[0] == 'set':
                return ('set', t.n)
            t = t.a[2][0][0]
        elif t.op == 'call' and len(t.a[1]) >= 1 and _fname(t.a[0]) in (
                'sorted', 'reversed', 'set', 'frozenset', 'unique'):
            return (_fname(t.a[0]), t.n)
        elif t.op == 'call' and len(t.a[1]) == 1 and _fname(t.a[0]) in (
                'list', 'tuple', 'iter'):
            t = t.a[1][0]
        else:
            return None


def _root_iter(t, whole=False):
    while t.op == 'call':
        f = t.a[0]
        if whole and _fname(f) in ('range', 'xrange') and not (
                t.a[1] and t.a[1][0].op == 'call' and
                _fname(t.a[1][0].a[0]) == 'len'):
            break
        if f.op == 'attr' and f.a[1] in DICT_ITER:
            t = f.a[0]
        elif _fname(f) in ('list', 'sorted', 'reversed', 'set', 'tuple',
                'iter', 'enumerate', 'OrderedDict', 'dict', 'unique',
                'frozenset', 'range', 'xrange', 'len') and t.a[1]:
            t = t.a[1][0]
        else:
            break
    return t


def _strip_container(t):
    """x in list(d) / d.keys() / set(d)  ==  x in d."""
    while t.op == 'call':
        f = t.a[0]
        if f.op == 'attr' and DICT_ITER.get(f.a[1]) == 'keys' and not t.a[1]:
            t = f.a[0]
        elif f.op == 'glob' and f.a[0] in ('list', 'set', 'sorted', 'tuple',
                'frozenset') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            break
    return t


def _strip_len(t):
    while t.op == 'call':
        f = t.a[0]
        if f.op == 'attr' and f.a[1] in DICT_ITER and not t.a[1]:
            t = f.a[0]
        elif f.op == 'glob' and f.a[0] in ('list', 'sorted', 'tuple') \
                and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            break
    return t


def _is_seq(t):
    return t.op in ('list', 'tuple', 'concat', 'repeat', 'append') or (
        t.op == 'comp' and t.a[0] == 'list') or (
        t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in (
            'list', 'sorted', 'range', 'tuple')) or (
        t.op == 'call' and not t.a[1] and t.a[0].op == 'attr' and
        t.a[0].a[1] in ('keys', 'values', 'items')) or (
        t.op == 'call' and t.a[0].op in ('glob', 'func') and
        t.a[0].a[0].split('.')[-1] == 'lchain')


def _is_str(t):
    return t.op == 'const' and t.a[0] == 'str' or t.op == 'format' or (
        t.op == 'concat' and any(_is_str(x) for x in t.a))


def _concat(x, y):
    if x.op == 'list' and y.op == 'list':
        return mk('list', *(x.a + y.a))
    if x.op == 'list' and not x.a:
        return y
    xs = x.a if x.op == 'concat' else (x,)
    ys = y.a if y.op == 'concat' else (y,)
    return mk('concat', *(xs + ys))


def _norm_gens(elt, gens):
    """Move into canonical form: sources stripped of order-only wrappers."""
    return elt, gens


def _comp(kind, elt, gens):
    return mk('comp', kind, elt, gens)


def _sum(elt, gens):
    # Linear: pull numeric coefficients and split sums.
    if elt.op == 'poly':
        r = const(0)
        for m, c in elt.a[0]:
            t = mk('num', c)
            inner = mk('num', const(1).a[0])
            for a, e in m:
                inner = mul(inner, power(a, const(e)))
            r = add(r, mul(t, mk('sum', inner, _sumgens(gens))))
        return r
    return mk('sum', elt, _sumgens(gens))


def _sumgens(gens):
    return tuple((_root_iter_keep(s), c) for s, c in gens)


def _root_iter_keep(s):
    return _root_iter(s, True) if s is not None else NONE


def _quant(q, elt, gens):
    gens = tuple((_root_iter_keep(s), c) for s, c in gens)
    # all(P for x in X if C) == all(not C or P)
    conds = [c for _, cs in gens for c in cs]
    gens = tuple((s, ()) for s, _ in gens)
    if q == 'allq':
        elt = or_(elt, *[not_(c) for c in conds])
    else:
        elt = and_(elt, *conds)
    return mk(q, elt, gens)


def _extend(g, c):
    """Guard extended by condition c; None if contradictory."""
    if c is TRUE:
        return g
    parts = c.a if c.op == 'and' else (c,)
    out = list(g)
    for p in parts:
        if p in out:
            continue
        if not_(p) in out:
            return None
        out.append(p)
    return tuple(out)


def _grouping(p, v):
    """(key, item) when v adds item to the list p keeps under key."""
    def added(x, cell):
        if x.op == 'append' and x.a[0] is cell:
            return x.a[1]
        if x.op == 'concat' and len(x.a) == 2 and x.a[0] is cell and \
                x.a[1].op == 'list' and len(x.a[1].a) == 1:
            return x.a[1].a[0]
        return None
    if v.op == 'ite' and v.a[0].op == 'in' and v.a[0].a[1] is p:
        k, a, b = v.a[0].a[0], v.a[1], v.a[2]
        if a.op == b.op == 'setitem' and a.a[0] is p and b.a[0] is p and \
                a.a[1] is k and b.a[1] is k:
            v = mk('setitem', p, k, ite(v.a[0], a.a[2], b.a[2]))
    if v.op == 'setitem' and v.a[0].op == 'ite' and \
            v.a[0].a[0].op == 'in' and v.a[0].a[1] is p and \
            v.a[0].a[2].op == 'setitem' and v.a[0].a[2].a[0] is p and \
            v.a[0].a[2].a[1] is v.a[1] is v.a[0].a[0].a[0] and \
            v.a[0].a[2].a[2].op == 'list' and not v.a[0].a[2].a[2].a:
        k = v.a[1]
        base = v.a[0]
        x = v.a[2]
        if x.op in ('append', 'concat') and not contains(x.a[1], p):
            y = x.a[1] if x.op == 'append' else (x.a[1].a[0]
                if x.a[1].op == 'list' and len(x.a[1].a) == 1 else None)
            if y is not None and x.a[0] in (mk('item', base, k),
                    ite(base.a[0], mk('item', p, k), mk('list'))):
                return (k, y) if not contains(k, p) else None
    if v.op == 'setitem' and v.a[0] is p:
        k, x = v.a[1], v.a[2]
        cell = mk('item', p, k)
        if x.op == 'ite' and x.a[0] is cmp_('in', k, p):
            y = added(x.a[1], cell)
            if y is not None and x.a[2].op == 'list' and \
                    x.a[2].a == (y,) and not contains(y, p) and \
                    not contains(k, p):
                return k, y
        e = ite(cmp_('in', k, p), cell, mk('list'))
        y = added(x, e)
        if y is not None and not contains(y, p) and not contains(k, p):
            return k, y
    return None


def _text(t):
    """Pieces of a string."""
    while t.op in ('unpack', 'item', 'elem', 'slice'):
        t = t.a[0]
    return t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in (
        'split', 'strip', 'group', 'replace', 'lstrip', 'rstrip',
        'partition')


def _as_subscript(t):
    """d.setdefault(k, v) as the place d[k]."""
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and \
            t.func.attr == 'setdefault' and t.args:
        return ast.copy_location(ast.Subscript(value=t.func.value,
            slice=t.args[0], ctx=ast.Load()), t)
    return t


def _same_mutator(f):
    """ite(c, x.m, y.m) as ite(c, x, y).m for a container mutator m."""
    if f.op == 'attr' and f.a[1] in MUTATORS:
        return f
    if f.op == 'ite':
        a, b = _same_mutator(f.a[1]), _same_mutator(f.a[2])
        if a is not None and b is not None and a.a[1] == b.a[1]:
            return mk('attr', ite(f.a[0], a.a[0], b.a[0]), a.a[1])
    return None


def _literals(it):
    """Elements of a short literal sequence (or product of them)."""
    if it.op in ('list', 'tuple') and 0 < len(it.a) <= 8:
        return list(it.a)
    if it.op == 'call' and it.a[0].op == 'glob' and not it.a[2] and \
            it.a[0].a[0] == 'itertools.product' and it.a[1] and all(
                x.op in ('list', 'tuple') and x.a for x in it.a[1]):
        out = [()]
        for x in it.a[1]:
            out = [o + (y,) for o in out for y in x.a]
        if len(out) <= 8:
            return [mk('tuple', *o) for o in out]
    return None


def _local_names(node):
    return set()


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(n))
    return False


def _lambda_func(name, node, module):
    f = Func.__new__(Func)
    f.name = name
    f.node = node
    f.module = module
    f.cls = None
    f.decorators = []
    a = node.args
    f.params = [x.arg for x in a.posonlyargs + a.args]
    f.defaults = [None] * (len(f.params) - len(a.defaults)) + list(a.defaults)
    f.vararg = a.vararg.arg if a.vararg else None
    f.kwarg = a.kwarg.arg if a.kwarg else None
    return f


def _last_set(v):
    """x[-1] = w straight after an append."""
    if v.op == 'setitem' and v.a[1] is const(-1) and v.a[0].op == 'append':
        return mk('append', v.a[0].a[0], v.a[2])
    return v


def _appended(v, p):
    """The value appended to p on the paths that append; p when none does;
    None when some path does something else."""
    v = _last_set(v)
    if v is p:
        return p
    if v.op == 'append' and v.a[0] is p and not contains(v.a[1], p):
        return v.a[1]
    if v.op == 'ite' and not contains(v.a[0], p):
        a, b = _appended(v.a[1], p), _appended(v.a[2], p)
        if a is None or b is None:
            return None
        return b if a is p else a if b is p else ite(v.a[0], a, b)
    return None


def _when(v, p):
    v = _last_set(v)
    if v is p:
        return FALSE
    if v.op == 'ite':
        a, b = _when(v.a[1], p), _when(v.a[2], p)
        return a if a is b else or_(and_(v.a[0], a), and_(not_(v.a[0]), b))
    return TRUE


def _counting(p, v, init):
    """d[k] += n: (k, n) when v is the tally p with n more of k."""
    if v.op != 'setitem' or v.a[0] is not p:
        return None
    k, x = v.a[1], v.a[2]
    if contains(k, p):
        return None
    zero = False
    if init.op == 'call':
        n = _fname(init.a[0])
        zero = n == 'Counter' or n == 'defaultdict' and init.a[1] and show(
            init.a[1][0]) in ('int', 'float')
    elif init.op == 'comp' and init.a[0] == 'count':
        zero = True
    olds = [mk('item', p, k)] if zero else []
    g = mk('call', mk('attr', p, 'get'), (k, const(0)), ())
    if x.op == 'ite':
        c = cmp_('in', k, p)
        a, b = x.a[1], x.a[2]
        if x.a[0] is not_(c):
            a, b = b, a
        elif x.a[0] is not c:
            return None
        d = sub(a, mk('item', p, k))
        ok = init.op == 'dict' and not init.a or zero
        return (k, d) if d is b and not contains(d, p) and ok else None
    if zero or init.op == 'dict' and not init.a:
        olds.append(g)
    for o in olds:
        d = sub(x, o)
        if not contains(d, p):
            return (k, d)
    return None
