"""Typestate of a budgeted sweep loop, by abstract interpretation.

The function runs kernels, in order, again and again until the budget of
sweeps (N) or of seconds (S) is spent.  The abstract state holds

  - the relation of every counter to the number of completed sweeps,
  - of every clock reading to the last kernel call (fresh or stale),
  - which parts of the budget were found unspent since the last event that
    can spend them, or that the budget was found spent,
  - whether the current sweep has called every kernel so far exactly once,
  - whether the diagnostics due after a sweep were recorded.

The domain is finite; loops are iterated to a fixed point over sets of states.
"""
import ast

NUM, PAR, CNT, TOP = 'num', 'par', 'cnt', ('top',)


class Unknown(Exception):
    pass


class State(object):
    __slots__ = ('env', 'g')

    def __init__(self, env, g):
        self.env, self.g = env, g

    def key(self):
        return (tuple(sorted(self.env.items(), key=repr)),
            tuple(sorted(self.g.items(), key=repr)))

    def copy(self):
        return State(dict(self.env), dict(self.g))

    def put(self, **kw):
        s = self.copy()
        s.g.update(kw)
        return s


def dedup(sts):
    out, seen = [], set()
    for s in sts:
        k = (s.key()) if isinstance(s, State) else (s[0].key(), s[1])
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


class Budget(object):
    def __init__(self, ctx, func, cls, diag='_increment_diagnostics'):
        self.ctx, self.func, self.cls = ctx, func, cls
        self.diag = diag
        self.bad = {}            # message -> node
        self.fns = {}
        self.depth = 0
        self.visited = 0
        self.kernel_calls = set()
        self.tests = set()

    # -- reporting -------------------------------------------------------
    def alarm(self, msg, node):
        self.bad.setdefault(msg, node)

    # -- running ---------------------------------------------------------
    def run(self):
        n = 0
        for N in (True, False):
            for S in (True, False):
                for C in (True, False):
                    for K in (True, False):
                        for P in (None, True, False):
                            self.one(N, S, C, K, P)
                            n += 1
        return n

    def one(self, N, S, C, K, P):
        env = {'self': ('self',)}
        vals = {'kernels': ('kernels',),
            'N': (PAR, 'N') if N else ('none',),
            'S': (PAR, 'S') if S else ('none',),
            'checkpoint': (PAR, 'checkpoint') if C else ('none',),
            'progress': ('none',) if P is None else ('bool', P)}
        for a in self.func.node.args.args[1:]:
            env[a.arg] = vals.get(a.arg, TOP)
        g = {'clear': frozenset(), 'spent': False, 'cp': 'none', 'due': '?',
            'called': -1, 'sweep': 'none', 'ran': False, 'nonempty': K,
            'pristine': True}
        self.N, self.S, self.C = N, S, C
        self.count = counters(self.func.node)
        for st, v in self.block_out(self.func.node.body, State(env, g)):
            self.leave(st, self.func.node)

    def leave(self, st, node):
        self.settle(st, node)
        if not st.g['spent'] and st.g['nonempty']:
            self.alarm('stops although the budget is not found spent', node)

    def block_out(self, body, st):
        """States (and values) with which a function body ends."""
        out = self.block(body, [st])
        ends = [(s, ('none',)) for s in out['fall']] + out['return']
        return dedup(ends)

    def block(self, body, sts):
        res = {'fall': [], 'break': [], 'continue': [], 'return': []}
        cur = dedup(sts)
        for s in body:
            nxt = []
            for st in cur:
                self.visited += 1
                if self.visited > 400000:
                    raise Unknown('too many states')
                r = self.stmt(s, st)
                nxt += r['fall']
                for k in ('break', 'continue', 'return'):
                    res[k] += r[k]
            cur = dedup(nxt)
            if not cur:
                break
        res['fall'] = cur
        for k in ('break', 'continue', 'return'):
            res[k] = dedup(res[k])
        return res

    def stmt(self, s, st):
        R = {'fall': [], 'break': [], 'continue': [], 'return': []}
        if isinstance(s, ast.Expr):
            R['fall'] = [x for x, _ in self.ev(s.value, st)]
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                R['fall'] = [st]
                return R
            for x, v in self.ev(s.value, st):
                x = x.copy()
                for t in (s.targets if isinstance(s, ast.Assign)
                        else [s.target]):
                    self.assign(t, v, x)
                R['fall'].append(x)
        elif isinstance(s, ast.AugAssign):
            for x, v in self.ev(s.value, st):
                x = x.copy()
                if isinstance(s.target, ast.Name):
                    o = x.env.get(s.target.id, TOP)
                    x.env[s.target.id] = self.plus(o, v, s.op)
                R['fall'].append(x)
        elif isinstance(s, ast.If):
            for x, b in self.test(s.test, st):
                r = self.block(s.body if b else s.orelse, [x])
                for k in R:
                    R[k] += r[k]
        elif isinstance(s, ast.While):
            return self.loop(s, st)
        elif isinstance(s, ast.For):
            return self.each(s, st)
        elif isinstance(s, ast.Return):
            if s.value is None:
                R['return'] = [(st, ('none',))]
            else:
                R['return'] = self.ev(s.value, st)
        elif isinstance(s, ast.Break):
            R['break'] = [st]
        elif isinstance(s, ast.Continue):
            R['continue'] = [st]
        elif isinstance(s, ast.FunctionDef):
            x = st.copy()
            self.fns[id(s)] = s
            x.env[s.name] = ('fn', id(s))
            R['fall'] = [x]
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom,
                ast.Global, ast.Nonlocal)):
            R['fall'] = [st]
        elif isinstance(s, ast.Assert):
            R['fall'] = [x for x, b in self.test(s.test, st) if b]
        elif isinstance(s, ast.Raise):
            pass
        else:
            raise Unknown('statement %s' % type(s).__name__)
        return R

    def assign(self, t, v, x):
        if isinstance(t, ast.Name):
            if v[0] == NUM and t.id in self.count:
                v = (CNT, v[1]) if x.g['pristine'] else TOP
            x.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, y in enumerate(t.elts):
                self.assign(y, v[1][i] if v[0] == 'tuple' and len(v[1]) ==
                    len(t.elts) else TOP, x)

    def plus(self, o, v, op):
        if v[0] == NUM and isinstance(op, (ast.Add, ast.Sub)):
            k = v[1] if isinstance(op, ast.Add) else -v[1]
            if o[0] == CNT and abs(o[1] + k) <= 3:
                return (CNT, o[1] + k)
            if o[0] == NUM:
                return (NUM, o[1] + k) if abs(o[1] + k) < 3 else TOP
        return TOP

    # -- loops -----------------------------------------------------------
    def loop(self, s, st):
        R = {'fall': [], 'break': [], 'continue': [], 'return': []}
        seen, work = set(), [st]
        while work:
            x = work.pop()
            if x.key() in seen:
                continue
            seen.add(x.key())
            for y, b in self.test(s.test, x):
                if not b:
                    r = self.block(s.orelse, [y]) if s.orelse else {
                        'fall': [y], 'break': [], 'continue': [],
                        'return': []}
                    for k in R:
                        R[k] += r[k]
                    continue
                r = self.block(s.body, [y])
                work += r['fall'] + r['continue']
                R['fall'] += r['break']
                R['return'] += r['return']
        R['fall'] = dedup(R['fall'])
        return R

    def each(self, s, st):
        R = {'fall': [], 'break': [], 'continue': [], 'return': []}
        for x, it in self.ev(s.iter, st):
            if it[0] not in ('kernels', 'ixs', 'pairs', 'forever'):
                raise Unknown('loop over %s' % ast.unparse(s.iter))
            if it[0] == 'forever':
                w = ast.While(ast.Constant(True), s.body, s.orelse)
                r = self.loop(w, x)
                for k in R:
                    R[k] += r[k]
                continue
            ends = []
            if not x.g['nonempty']:
                ends.append(x)
            else:
                old = (x.g['called'], x.g['sweep'])
                seen, work = set(), [x.put(sweep='ok', called=-1)]
                while work:
                    y = work.pop()
                    if y.key() in seen:
                        continue
                    seen.add(y.key())
                    y = y.put(called=0)
                    v = {'kernels': ('kern',), 'ixs': ('ix',),
                        'pairs': ('tuple', (('ix',), ('kern',)))}[it[0]]
                    self.assign(s.target, v, y)
                    r = self.block(s.body, [y])
                    for z in r['fall'] + r['continue']:
                        z = z.put(called=-1, sweep=z.g['sweep']
                            if z.g['called'] == 1 else 'skip')
                        work.append(z)
                        ends.append(self.swept(z, s))
                    R['fall'] += [z.put(called=old[0], sweep=old[1])
                        for z in r['break']]
                    R['return'] += [(z.put(called=old[0], sweep=old[1]), v)
                        for z, v in r['return']]
            for z in dedup(ends):
                r = self.block(s.orelse, [z]) if s.orelse else None
                if r is None:
                    R['fall'].append(z)
                else:
                    for k in R:
                        R[k] += r[k]
        R['fall'] = dedup(R['fall'])
        return R

    def swept(self, st, node):
        """All kernels were iterated over."""
        ok = st.g['sweep'] == 'ok'
        st = st.put(sweep='none', called=-1)
        if not ok:
            if not st.g['spent']:
                self.alarm('a sweep does not call every kernel once', node)
            return st
        self.settle(st, node)
        st = st.put(cp='todo' if self.C else 'none', due='?', pristine=False,
            clear=frozenset(c for c in st.g['clear'] if c[0] != 'N'))
        for n, v in st.env.items():
            st.env[n] = self.shift(v)
        return st

    def shift(self, v):
        if v[0] == CNT:
            return (CNT, v[1] - 1) if v[1] > -3 else TOP
        if v[0] == 'pN':
            return ('pN', v[1] - 1, v[2]) if v[1] > -3 else TOP
        if v[0] == 'max':
            return ('max', frozenset(self.shift(x) for x in v[1]))
        return v

    def settle(self, st, node):
        """Before the next kernel, sweep or end: were diagnostics kept?"""
        if st.g['cp'] == 'todo' and st.g['due'] is not False:
            self.alarm('diagnostics due after a sweep are not recorded '
                'exactly when the number of completed sweeps is a multiple '
                'of the checkpoint', node)

    # -- kernels ---------------------------------------------------------
    def want(self):
        """The parts of the requested budget."""
        want = set()
        if self.N:
            want.add(('N', (PAR, 'N')))
        if self.S:
            want.add(('S',))
        return want or {('N', (NUM, 1))}

    def kernel(self, st, node):
        self.kernel_calls.add((node.lineno, node.col_offset))
        g = st.g
        if g['spent']:
            self.alarm('a kernel runs after the budget is found spent', node)
        for w in sorted(self.want(), key=repr):
            if w not in g['clear']:
                self.alarm('a kernel runs without a test, after the last '
                    '%s, that the budget of %s is not spent' % (
                    ('sweep', 'sweeps') if w[0] == 'N' else (
                        'kernel', 'seconds')), node)
        self.settle(st, node)
        if g['called'] != 0:
            self.alarm('a kernel runs outside the order of a sweep', node)
        st = st.put(called=g['called'] + 1 if g['called'] in (0, 1) else 2,
            clear=frozenset(c for c in g['clear'] if c[0] != 'S'),
            cp='none', ran=True)
        first = not g['ran']
        for n, v in st.env.items():
            st.env[n] = self.stale(v, first)
        return st

    def stale(self, v, first):
        if v[0] == 'now' and v[1]:
            return ('t0',) if first else ('now', False)
        if v[0] in ('el', 'pS'):
            return (v[0], False)
        if v[0] == 'max':
            return ('max', frozenset(self.stale(x, first) for x in v[1]))
        return v

    # -- conditions ------------------------------------------------------
    def test(self, e, st):
        """[(state, truth)] of the ways a condition may come out."""
        if isinstance(e, ast.BoolOp):
            out, cur = [], [st]
            stop = isinstance(e.op, ast.Or)
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.test(x, s):
                        (out.append((s2, b)) if b == stop
                            else nxt.append(s2))
                cur = nxt
            return dedup(out + [(s, not stop) for s in cur])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.test(e.operand, st)]
        if isinstance(e, ast.IfExp):
            return [r for s, b in self.test(e.test, st)
                for r in self.test(e.body if b else e.orelse, s)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for s, x in self.ev(e.left, st):
                for s2, y in self.ev(e.comparators[0], s):
                    out += self.compare(e.ops[0], x, y, s2, e)
            return dedup(out)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'bool' and len(e.args) == 1:
            return self.test(e.args[0], st)
        out = []
        for s, v in self.ev(e, st):
            out += self.truth(v, s, e)
        return dedup(out)

    def truth(self, v, s, e):
        if v[0] == 'none':
            return [(s, False)]
        if v[0] == 'bool':
            return [(s, v[1])]
        if v[0] == NUM:
            return [(s, v[1] != 0)]
        if v[0] == PAR or v[0] in ('kern', 'self', 'fn'):
            return [(s, True)]
        if v[0] == 'kernels' or v == ('len',):
            return [(s, s.g['nonempty'])]
        if v[0] == 'mod':
            return [(x, not b) for x, b in self.mod(v, s)]
        return [(s, True), (s, False)]

    def mod(self, v, s):
        """Is the number of sweeps a multiple of the checkpoint?"""
        if v[1] != 0 or s.g['due'] == '!':
            return [(s, True), (s, False)]
        if s.g['due'] != '?':
            return [(s, s.g['due'])]
        return [(s.put(due=True), True), (s.put(due=False), False)]

    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
        ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def compare(self, op, x, y, s, e):
        t = type(op)
        if t in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq) and (
                x == ('none',) or y == ('none',)):
            z = y if x == ('none',) else x
            if z[0] == 'top':
                return [(s, True), (s, False)]
            r = z == ('none',)
            return [(s, r if t in (ast.Is, ast.Eq) else not r)]
        if x[0] == NUM and y[0] == NUM and t in (ast.Lt, ast.LtE, ast.Gt,
                ast.GtE, ast.Eq, ast.NotEq):
            a, b = x[1], y[1]
            return [(s, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[t])]
        if t not in self.FLIP:
            return [(s, True), (s, False)]
        # A budget or checkpoint that is given is positive.
        if x[0] == PAR and y == (NUM, 0):
            return [(s, t in (ast.Gt, ast.GtE, ast.NotEq))]
        if y[0] == PAR and x == (NUM, 0):
            return [(s, t in (ast.Lt, ast.LtE, ast.NotEq))]
        if x[0] == 'len' and y[0] == NUM or y[0] == 'len' and x[0] == NUM:
            n, k, tt = (x, y[1], t) if x[0] == 'len' else (y, x[1],
                self.FLIP[t])
            ne = s.g['nonempty']
            if (tt, k) in ((ast.Gt, 0), (ast.GtE, 1), (ast.NotEq, 0)):
                return [(s, ne)]
            if (tt, k) in ((ast.Lt, 1), (ast.LtE, 0), (ast.Eq, 0)):
                return [(s, not ne)]
            return [(s, True), (s, False)]
        if (x[0] == 'mod' and y == (NUM, 0)) or (
                y[0] == 'mod' and x == (NUM, 0)):
            r = self.mod(x if x[0] == 'mod' else y, s)
            if t is ast.Eq:
                return r
            if t in (ast.NotEq, ast.Gt, ast.Lt):
                return [(a, not b) for a, b in r]
        if 'bool' in (x[0], y[0]) and t in (ast.Eq, ast.NotEq):
            z, w = (x, y) if x[0] == 'bool' else (y, x)
            if w[0] == 'bool':
                return [(s, (z[1] == w[1]) == (t is ast.Eq))]
        # budget spent?
        l = self.parts(x, y)
        flip = False
        if l is None:
            l = self.parts(y, x)
            flip = True
        if l is not None and l <= self.want():
            o = self.FLIP[t] if flip else t
            self.tests.add((e.lineno, e.col_offset))
            if not l:
                return [(s, o in (ast.Lt, ast.LtE, ast.NotEq))]
            if o in (ast.GtE, ast.Lt):
                out = []
                done = o is ast.GtE
                if not l <= s.g['clear']:
                    out.append((s.put(spent=True), done))
                elif any(p[0] == 'S' for p in l):
                    out.append((s.put(spent=True), done))
                if not s.g['spent']:
                    out.append((s.put(clear=s.g['clear'] | l), not done))
                return out
        return [(s, True), (s, False)]

    def parts(self, x, y):
        """Parts of the budget whose being spent is x >= y."""
        if x == (CNT, 0) and y in ((PAR, 'N'), (NUM, 1)):
            return frozenset([('N', y)])
        if y == (NUM, 1):
            if x == (NUM, 0):
                return frozenset()
            xs = x[1] if x[0] == 'max' else (x,)
            out = set()
            for p in xs:
                if p[0] == 'pN' and p[1] == 0:
                    out.add(('N', p[2]))
                elif p == ('pS', True):
                    out.add(('S',))
                else:
                    return None
            return frozenset(out)
        if x == ('el', True) and y == (PAR, 'S'):
            return frozenset([('S',)])
        return None

    # -- values ----------------------------------------------------------
    def ev(self, e, st):
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return [(st, ('none',))]
            if isinstance(v, bool):
                return [(st, ('bool', v))]
            if isinstance(v, (int, float)):
                return [(st, (NUM, v))]
            return [(st, TOP)]
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return [(st, st.env[e.id])]
            return [(st, ('name', e.id))]
        if isinstance(e, (ast.Compare,)) or isinstance(e, ast.UnaryOp) and \
                isinstance(e.op, ast.Not):
            return [(s, ('bool', b)) for s, b in self.test(e, st)]
        if isinstance(e, ast.BoolOp):
            return self.bool(e.values, isinstance(e.op, ast.Or), st)
        if isinstance(e, ast.IfExp):
            return dedup([r for s, b in self.test(e.test, st)
                for r in self.ev(e.body if b else e.orelse, s)])
        if isinstance(e, ast.BinOp):
            return [(s2, self.arith(e.op, x, y, s2))
                for s, x in self.ev(e.left, st)
                for s2, y in self.ev(e.right, s)]
        if isinstance(e, ast.UnaryOp):
            return [(s, (NUM, -v[1]) if v[0] == NUM and isinstance(
                e.op, ast.USub) else TOP) for s, v in self.ev(e.operand, st)]
        if isinstance(e, (ast.Tuple, ast.List)):
            out = [(st, ())]
            for x in e.elts:
                out = [(s2, vs + (v,)) for s, vs in out
                    for s2, v in self.ev(x, s)]
            return [(s, ('tuple', vs)) for s, vs in out]
        if isinstance(e, ast.Attribute):
            return [(s, ('attr', v, e.attr) if v[0] in ('self', 'name',
                'kernels') else TOP) for s, v in self.ev(e.value, st)]
        if isinstance(e, ast.Subscript):
            out = []
            for s, v in self.ev(e.value, st):
                for s2, i in self.ev(e.slice, s):
                    out.append((s2, ('kern',) if v[0] == 'kernels' and
                        i == ('ix',) else v[1][i[1]] if v[0] == 'tuple' and
                        i[0] == NUM and -len(v[1]) <= i[1] < len(v[1])
                        else TOP))
            return out
        if isinstance(e, ast.Lambda):
            self.fns[id(e)] = e
            return [(st, ('fn', id(e)))]
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                ast.DictComp)):
            if any(isinstance(x, ast.Call) for x in ast.walk(e)):
                raise Unknown('comprehension with calls')
            return [(st, TOP)]
        return [(st, TOP)]

    def bool(self, vs, stop, st):
        out = []
        for s, v in self.ev(vs[0], st):
            if len(vs) == 1:
                out.append((s, v))
                continue
            for s2, b in self.truth(v, s, vs[0]):
                if b == stop:
                    out.append((s2, ('bool', b) if v[0] in ('top', 'mod')
                        else v))
                else:
                    out += self.bool(vs[1:], stop, s2)
        return dedup(out)

    def arith(self, op, x, y, st):
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if x[0] == CNT and y in ((PAR, 'N'), (NUM, 1)):
                return ('pN', x[1], y)
            if x[0] == 'el' and y == (PAR, 'S') and isinstance(op, ast.Div):
                return ('pS', x[1])
            return TOP
        if isinstance(op, ast.Mod):
            if x[0] == CNT and y == (PAR, 'checkpoint'):
                return ('mod', x[1])
            return TOP
        if isinstance(op, ast.Sub):
            if x == ('now', True) and (y == ('t0',) or y[0] == 'now' and
                    y[1] and not st.g['ran']):
                return ('el', True)
        if isinstance(op, (ast.Add, ast.Sub)):
            r = self.plus(x, y, op)
            if r == TOP and isinstance(op, ast.Add):
                r = self.plus(y, x, op)
            return r
        return TOP

    def call(self, e, st):
        out = []
        for s, f in self.ev(e.func, st):
            cur = [(s, ())]
            for a in e.args:
                if isinstance(a, ast.Starred):
                    a = a.value
                cur = [(s3, vs + (v,)) for s2, vs in cur
                    for s3, v in self.ev(a, s2)]
            for k in e.keywords:
                cur = [(s3, vs + ((k.arg, v),)) for s2, vs in cur
                    for s3, v in self.ev(k.value, s2)]
            for s2, vs in cur:
                n = len(e.args)
                out += self.apply(f, vs[:n], dict(vs[n:]), s2, e)
        return dedup(out)

    def apply(self, f, args, kw, st, e):
        if f == ('kern',):
            return [(self.kernel(st, e), TOP)]
        if f[0] == 'fn':
            return self.inline(self.fns[f[1]], args, kw, st, None)
        if f[0] == 'attr' and f[1] == ('self',):
            if f[2] == self.diag:
                return [(self.record(st, e), ('none',))]
            m = self.cls.lookup(f[2])
            if m is None:
                raise Unknown('method %s' % f[2])
            if not self.matters(m.node):
                return [(st, TOP)]
            return self.inline(m.node, args, kw, st, ('self',))
        name = f[1] if f[0] == 'name' else f[2] if f[0] == 'attr' else ''
        if f[0] == 'attr' and f[1] == ('name', 'time') and name == 'time' \
                or f == ('name', 'time'):
            return [(st, ('now', True))]
        if name in ('float', 'int') and len(args) == 1 and f[0] == 'name':
            v = args[0]
            if name == 'float' or v[0] in (CNT, NUM):
                return [(st, v)]
            return [(st, TOP)]
        if name == 'max' and f[0] == 'name':
            if len(args) == 1 and args[0][0] == 'tuple':
                args = args[0][1]
            ps = set()
            for v in args:
                if v[0] == 'max':
                    ps |= v[1]
                elif v[0] in ('pN', 'pS'):
                    ps.add(v)
                elif v[0] == NUM and v[1] <= 0:
                    pass
                else:
                    return [(st, TOP)]
            return [(st, ('max', frozenset(ps)) if ps else (NUM, 0))]
        if name == 'len' and args == (('kernels',),):
            return [(st, ('len',))]
        if name in ('xrange', 'range') and args == (('len',),):
            return [(st, ('ixs',))]
        if name == 'enumerate' and args == (('kernels',),):
            return [(st, ('pairs',))]
        if name in ('list', 'tuple', 'iter') and args == (('kernels',),):
            return [(st, ('kernels',))]
        if name == 'count' and f[0] == 'attr' and f[1] == ('name',
                'itertools'):
            return [(st, ('forever',))]
        if any(a in (('kern',), ('kernels',)) for a in args) and name not in (
                'len', 'print', 'str', 'repr', 'bool', 'isinstance'):
            raise Unknown('kernels given to %s' % ast.unparse(e.func))
        return [(st, TOP)]

    def matters(self, node):
        """Can the method run kernels, read the clock or record?"""
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and x.attr in ('time',
                    self.diag):
                return True
        return any(isinstance(x, (ast.Div, ast.Mod, ast.GtE, ast.Lt,
            ast.Gt, ast.LtE, ast.For, ast.While, ast.Call)) for x in
            ast.walk(node)) and not any(isinstance(x, ast.Attribute) and
            x.attr in ('stdout', 'progress') for x in ast.walk(node))

    def record(self, st, e):
        g = st.g
        if not self.C:
            self.alarm('diagnostics are recorded without a checkpoint', e)
        elif g['cp'] != 'todo' or g['due'] is not True:
            self.alarm('diagnostics are recorded when the number of '
                'completed sweeps is not a multiple of the checkpoint', e)
        return st.put(cp='none')

    def inline(self, fn, args, kw, st, me):
        if self.depth > 6:
            raise Unknown('recursion')
        outer = st.env
        env = dict(outer) if me is None else {}
        names = [a.arg for a in fn.args.args]
        if me is not None:
            args = (me,) + tuple(args)
        ds = fn.args.defaults
        for a, d in zip(names[len(names) - len(ds):], ds):
            (_, v), = self.ev(d, st)[:1]
            env[a] = v
        for a, v in zip(names, args):
            env[a] = v
        env.update(kw)
        # Keep the caller's variables, so that kernels age them too.
        for k, v in outer.items():
            env['%d.%s' % (self.depth, k)] = v
        self.depth += 1
        body = fn.body if isinstance(fn.body, list) else [ast.copy_location(
            ast.Return(fn.body), fn)]
        try:
            ends = self.block_out(body, State(env, dict(st.g)))
        finally:
            self.depth -= 1
        out = []
        p = '%d.' % self.depth
        for s, v in ends:
            env = {k[len(p):]: x for k, x in s.env.items()
                if k.startswith(p)}
            out.append((State(env, s.g), v))
        return dedup(out)


def counters(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.add(x.target.id)
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and \
                isinstance(x.value.op, ast.Add) and len(x.targets) == 1 and \
                isinstance(x.targets[0], ast.Name) and any(isinstance(
                    y, ast.Name) and y.id == x.targets[0].id
                    for y in ast.walk(x.value)):
            out.add(x.targets[0].id)
    return out
