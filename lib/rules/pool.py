"""C21: the process pool is an ordered map.

A path analysis of the protocol between the parent and its workers: both
sides are read as sequences of protocol actions (announce, receive, send,
store, raise, ...), with helpers read where they are called and loops read as
the set of paths of one turn, and each turn has to use what it takes exactly
once."""
import ast
import itertools

MAIN = 'cgpm.utils.parallel_map.parallel_map'


class Path(object):
    """Effects so far, variables, facts, and how the path ends (None, 'break',
    'continue', 'return', 'raise')."""

    def __init__(self, env, eff=(), facts=None, end=None, val=None):
        self.env, self.eff = dict(env), list(eff)
        self.facts = dict(facts or {})
        self.end, self.val = end, val

    def fork(self, **kw):
        p = Path(self.env, self.eff, self.facts, self.end, self.val)
        for k, v in kw.items():
            setattr(p, k, v)
        return p


class Reader(object):
    """Paths through statements."""

    def __init__(self, ix, module):
        self.ix, self.module = ix, module
        self.n = itertools.count()
        self.depth = 0
        self.first = {}          # first value of each list cell
        self.result = None

    def fresh(self, kind, *a):
        return (kind, next(self.n)) + a

    # Statements ---------------------------------------------------------

    def block(self, stmts, p):
        live, done = [p], []
        for s in stmts:
            nxt = []
            for q in live:
                for r in self.stmt(s, q):
                    (nxt if r.end is None else done).append(r)
            live = nxt
            if len(live) + len(done) > 200:
                raise Unreadable('too many paths')
        return live + done

    def stmt(self, s, p):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [p]
        return m(s, p)

    def s_FunctionDef(self, s, p):
        p.env[s.name] = ('function', s, id(p))
        return [p]

    def s_Expr(self, s, p):
        return [q for q, _ in self.ev(s.value, p)]

    def s_Assign(self, s, p):
        out = []
        for q, v in self.ev(s.value, p):
            if q.end is None:
                for t in s.targets:
                    self.bind(t, v, q)
            out.append(q)
        return out

    def s_AugAssign(self, s, p):
        out = []
        for q, v in self.ev(s.value, p):
            if q.end is None:
                loc = self.place(s.target, q)
                q.eff.append(('count', loc, type(s.op).__name__, v))
                if isinstance(s.target, ast.Name):
                    q.env[s.target.id] = ('load', loc)
            out.append(q)
        return out

    def place(self, t, p):
        if isinstance(t, ast.Name):
            return ('var', t.id)
        if isinstance(t, ast.Subscript):
            for q, b in self.ev(t.value, p):
                if b[0] == 'cell':
                    return b
        return ('other', ast.unparse(t))

    def bind(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x, part(v, i), p)
        elif isinstance(t, ast.Subscript):
            (q, b), = self.ev(t.value, p)[:1]
            (q, i), = self.ev(t.slice, p)[:1]
            p.eff.append(('store', b, i, v))

    def s_Return(self, s, p):
        if s.value is None:
            return [p.fork(end='return', val=('const', None))]
        return [q.fork(end='return', val=v) if q.end is None else q
            for q, v in self.ev(s.value, p)]

    def s_Raise(self, s, p):
        return [p.fork(end='raise', val=('raised',))]

    def s_Break(self, s, p):
        return [p.fork(end='break')]

    def s_Continue(self, s, p):
        return [p.fork(end='continue')]

    def s_If(self, s, p):
        out = []
        for q, b in self.test(s.test, p):
            if q.end is not None:
                out.append(q)
            else:
                out.extend(self.block(s.body if b else s.orelse, q))
        return out

    def test(self, e, p):
        """Paths with the outcome of a condition; facts are remembered."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(q, not b) for q, b in self.test(e.operand, p)]
        if isinstance(e, ast.BoolOp):
            both = isinstance(e.op, ast.And)
            out, live = [], [p]
            for x in e.values:
                nxt = []
                for q in live:
                    for r, b in self.test(x, q):
                        (nxt if b == both else out).append(r)
                live = nxt
            return [(q, both) for q in live] + [(q, not both) for q in out]
        return [x for q, c in self.cond(e, p) for x in self.outcome(q, c)]

    def outcome(self, q, c):
        if c[0] == 'const':
            return [(q, bool(c[1]))]
        if c in q.facts:
            return [(q, q.facts[c])]
        out = []
        for b in (True, False):
            r = q.fork()
            r.facts[c] = b
            out.append((r, b))
        return out

    def cond(self, e, p):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for q, a in self.ev(e.left, p):
                for r, b in self.ev(e.comparators[0], q):
                    o = type(e.ops[0]).__name__
                    out.append((r, compare(o, a, b)))
            return self.negations(out)
        return self.ev(e, p)

    def negations(self, out):
        """A negated comparison as two outcomes of the plain one."""
        res = []
        for q, c in out:
            if c[0] == 'not':
                x = c[1]
                if x in q.facts:
                    res.append((q, ('const', not q.facts[x])))
                    continue
                for b in (True, False):
                    r = q.fork()
                    r.facts[x] = b
                    res.append((r, ('const', not b)))
            else:
                res.append((q, c))
        return res

    def s_While(self, s, p):
        return self.loop(s, p, ('while', s.test), None)

    def s_For(self, s, p):
        out = []
        for q, v in self.ev(s.iter, p):
            if q.end is not None:
                out.append(q)
            elif v[0] == 'tuple':
                out.extend(self.unrolled(s, v[1:], q))
            else:
                out.extend(self.loop(s, q, ('for', v), v))
        return out

    def unrolled(self, s, vs, p):
        live, done = [p], []
        for v in vs:
            nxt = []
            for q in live:
                self.bind(s.target, v, q)
                for r in self.block(s.body, q):
                    if r.end in (None, 'continue'):
                        nxt.append(r.fork(end=None))
                    else:
                        done.append(r.fork(end=None) if r.end == 'break'
                            else r)
            live = nxt
        return live + done

    def loop(self, s, p, head, over):
        q = Path(p.env)
        for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(x, ast.AugAssign) and isinstance(
                    x.target, ast.Name) and x.target.id in q.env:
                loc = ('var', x.target.id)
                self.first.setdefault(loc, q.env[x.target.id])
                q.env[x.target.id] = ('load', loc)
        if over is not None and over[0] == 'until':
            turn = []
            for r, v in self.call(over[1], [], {}, q, s):
                self.bind(s.target, v, r)
                c = compare('Is', v, over[2])
                a, b = r.fork(end='break'), r.fork()
                a.facts[c], b.facts[c] = True, False
                turn += [a] + self.block(s.body, b)
            head = ('while', frozenset([('true', True)]))
        elif over is not None:
            self.bind(s.target, element(over, next(self.n)), q)
            turn = self.block(s.body, q)
        else:
            turn, test = [], set()
            for r, b in self.test(s.test, q):
                if b:
                    test.update(r.facts.items())
                    turn.extend(self.block(s.body, r))
            if isinstance(s.test, ast.Constant):
                test = {('true', bool(s.test.value))}
                out = [t for t in turn if t.end == 'break' and not t.eff]
                if len(out) == 1 and len(out[0].facts) == 1:
                    # Leaving before anything is done is the loop's test.
                    (c, b), = out[0].facts.items()
                    rest = [t for t in turn if t is not out[0]]
                    if all(t.facts.get(c) == (not b) for t in rest):
                        turn, test = rest, {(c, not b)}
            head = ('while', frozenset(test))
        r = p.fork()
        name = self.gathered(head, turn, r)
        if name is None:
            r.eff.append(('loop', head, turn, s.lineno))
        for t in turn:
            for k in t.env:
                if k in r.env and t.env[k] != r.env[k] and k != name:
                    r.env[k] = ('load', ('var', k)) \
                        if t.env[k][0] == 'load' else ('later', k)
        out = [r]
        for t in turn:
            if t.end == 'return':
                u = r.fork(end='return', val=t.val)
                out.append(u)
        return out

    def gathered(self, head, turn, p):
        """A loop that only fills a list is a comprehension."""
        if head[0] != 'for' or len(turn) != 1 or len(turn[0].eff) != 1:
            return None
        x = turn[0].eff[0]
        if x[0] != 'append' or p.env.get(x[1]) != ('tuple',):
            return None
        p.env[x[1]] = self.mapped(head[1], x[2], ('loop', x[1]))
        return x[1]

    def mapped(self, v, y, key):
        if y[0] == 'pipe':
            return ('pipes', key, v)
        if y[0] == 'process':
            return ('processes', y, v)
        return ('map', v, y)

    def s_With(self, s, p):
        return self.block(s.body, p)

    def s_Try(self, s, p):
        out = []
        start = len(p.eff)
        paths = self.block(s.body, p.fork())
        for q in paths:
            if q.end != 'raise' or not q.val or q.val[0] == 'reraise':
                out.extend(self.block(s.orelse, q) if q.end is None else [q])
                continue
            caught = False
            for h in s.handlers:
                if catches(h, self.module):
                    r = q.fork(end=None, val=None)
                    if h.name:
                        r.env[h.name] = ('exception',)
                    r.env['@exc'] = q.val
                    out.extend(self.handled(h, r, q.val))
                    caught = True
                    break
                if q.val[0] != 'raised':
                    # A narrower type catches some of the failures.
                    r = q.fork(end=None, val=None)
                    out.extend(self.handled(h, r, q.val))
            if not caught:
                out.append(q)
        if s.finalbody:
            res = []
            for q in out:
                end, val = q.end, q.val
                for r in self.block(s.finalbody, q.fork(end=None, val=None)):
                    res.append(r if r.end is not None
                        else r.fork(end=end, val=val))
            out = res
        # What happens when anything at all goes wrong in the block.
        k = ('wrong', tuple(h.type is None or ast.unparse(h.type)
            for h in s.handlers))
        if any(x[0] == 'loop' for q in paths for x in q.eff[start:]):
            hs = []
            for h in s.handlers:
                q = Path(p.env)
                if h.name:
                    q.env[h.name] = ('exception',)
                hs.append((catches(h, self.module),
                    self.handled(h, q, ('raised',))))
            fin = self.block(s.finalbody, Path(p.env)) if s.finalbody else []
            for q in out:
                q.eff.append(('guarded', k, hs, fin, start))
        return out

    s_TryExcept = s_TryFinally = s_Try

    def handled(self, h, p, val):
        res = []
        for q in self.block(h.body, p):
            if q.end == 'raise' and q.val == ('raised',) and any(
                    isinstance(x, ast.Raise) and x.exc is None
                    for x in ast.walk(h)):
                q = q.fork(val=val)
            res.append(q)
        return res

    # Expressions ----------------------------------------------------------

    def ev(self, e, p):
        if p.end is not None:
            return [(p, ('none',))]
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(p, ('other', ast.unparse(e)))]
        return m(e, p)

    def many(self, es, p):
        live = [(p, ())]
        for e in es:
            live = [(r, vs + (v,)) for q, vs in live
                for r, v in self.ev(e, q)]
        return live

    def e_Constant(self, e, p):
        return [(p, ('const', e.value))]

    def e_Name(self, e, p):
        if e.id in p.env:
            return [(p, p.env[e.id])]
        if e.id in ('None', 'True', 'False'):
            return [(p, ('const', {'None': None, 'True': True,
                'False': False}[e.id]))]
        f = self.module.functions.get(e.id)
        if f is not None:
            return [(p, ('function', f.node, None))]
        return [(p, ('global', self.module.imports.get(e.id, e.id)))]

    def e_Attribute(self, e, p):
        return [(q, ('global', v[1] + '.' + e.attr) if v[0] == 'global'
            else ('attr', v, e.attr)) for q, v in self.ev(e.value, p)]

    def e_Tuple(self, e, p):
        return [(q, ('tuple',) + vs) for q, vs in self.many(e.elts, p)]

    def e_List(self, e, p):
        out = []
        for q, vs in self.many(e.elts, p):
            if len(vs) == 1:
                c = ('cell', (e.lineno, e.col_offset))
                self.first.setdefault(c, vs[0])
                out.append((q, c))
            else:
                out.append((q, ('tuple',) + vs))
        return out

    def e_Subscript(self, e, p):
        out = []
        for q, (b, i) in self.many([e.value, e.slice], p):
            out.append((q, part(b, i[1] if i[0] == 'const' else i)))
        return out

    def e_IfExp(self, e, p):
        out = []
        for q, b in self.test(e.test, p):
            out.extend(self.ev(e.body if b else e.orelse, q))
        return out

    def e_BoolOp(self, e, p):
        live, out = [p], []
        for x in e.values:
            nxt = []
            for q in live:
                for r, v in self.ev(x, q):
                    if x is e.values[-1]:
                        out.append((r, v))
                        continue
                    for u, b in self.outcome(r, v):
                        if b == isinstance(e.op, ast.And):
                            nxt.append(u)
                        else:
                            out.append((u, v))
            live = nxt
        return out

    def e_BinOp(self, e, p):
        out = []
        for q, (a, b) in self.many([e.left, e.right], p):
            o = type(e.op).__name__
            if o == 'Mult':
                for c, n in ((a, b), (b, a)):
                    if c[0] == 'cell':
                        out.append((q, ('results', self.first.get(c), n)))
                        break
                else:
                    out.append((q, ('op', o, a, b)))
            elif o == 'Add' and a[0] in ('pipes', 'both') and \
                    b[0] in ('pipes', 'both'):
                out.append((q, ('both', a, b)))
            else:
                out.append((q, ('op', o, a, b)))
        return out

    def e_Compare(self, e, p):
        return self.cond(e, p)

    def e_UnaryOp(self, e, p):
        if isinstance(e.op, ast.Not):
            return [(q, ('const', b)) for q, b in self.test(e, p)]
        return [(q, ('op', type(e.op).__name__, v))
            for q, v in self.ev(e.operand, p)]

    def e_ListComp(self, e, p):
        if len(e.generators) != 1:
            return [(p, ('other', ast.unparse(e)))]
        if e.generators[0].ifs:
            return self.filtered(e, e.generators[0], p)
        g = e.generators[0]
        out = []
        for q, v in self.ev(g.iter, p):
            t = Path(q.env, facts=q.facts)
            n = next(self.n)
            self.bind(g.target, element(v, n), t)
            turn = self.ev(e.elt, t)
            eff = [x for r, _ in turn for x in r.eff]
            y = turn[0][1]
            if eff and y[0] not in ('pipe', 'process'):
                q.eff.append(('loop', ('for', v), [r for r, _ in turn],
                    e.lineno))
            out.append((q, self.mapped(v, y, (e.lineno, e.col_offset))))
        return out

    def filtered(self, e, g, p):
        """The workers that are alive."""
        out = []
        for q, v in self.ev(g.iter, p):
            t = Path(q.env)
            x = element(v, next(self.n))
            self.bind(g.target, x, t)
            good = [r for r, b in self.test(g.ifs[0], t) if b]
            if len(g.ifs) == 1 and len(good) == 1 and \
                    set(good[0].facts.items()) == {(('alive', x), True)} and \
                    self.ev(e.elt, t)[0][1] == x:
                out.append((q, ('alive-of', v)))
            else:
                out.append((q, ('other', ast.unparse(e))))
        return out

    def e_GeneratorExp(self, e, p):
        return self.e_ListComp(e, p)

    def e_Call(self, e, p):
        out = []
        star = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        for q, vs in self.many([e.func] + star + [k.value
                for k in e.keywords], p):
            f, args = vs[0], list(vs[1:1 + len(e.args)])
            kw = dict(zip([k.arg for k in e.keywords], vs[1 + len(e.args):]))
            if q.end is not None:
                out.append((q, ('none',)))
                continue
            out.extend(self.call(f, args, kw, q, e))
        return out

    def call(self, f, args, kw, p, e):
        if f[0] == 'function':
            return self.inline(f, args, kw, p)
        if f[0] == 'task-function':
            ok, bad = p.fork(), p.fork(end='raise', val=('failed', 'f'))
            ok.eff.append(('work', tuple(args)))
            return [(ok, ('value', tuple(args))), (bad, ('none',))]
        if f[0] == 'attr':
            b, n = f[1:]
            return self.method(b, n, args, kw, p, e)
        if f[0] != 'global':
            return [(p, ('other', ast.unparse(e)))]
        n = f[1].split('.')[-1]
        if n in ('xrange', 'range') and len(args) == 1:
            return [(p, ('range', args[0]))]
        if n == 'iter' and len(args) == 2:
            return [(p, ('until',) + tuple(args))]
        if n in ('map', 'imap') and len(args) == 2:
            t = Path(p.env, facts=p.facts)
            turn = self.call(args[0], [element(args[1], next(self.n))], {}, t,
                e)
            if any(r.eff for r, _ in turn):
                p.eff.append(('loop', ('for', args[1]), [r for r, _ in turn],
                    e.lineno))
            return [(p, self.mapped(args[1], turn[0][1], (e.lineno,
                e.col_offset)))]
        if n == 'iter' and len(args) == 1:
            return [(p, ('iter', (e.lineno, e.col_offset), args[0]))]
        if n == 'next' and args and args[0][0] == 'iter':
            v = self.fresh('next', args[0])
            p.eff.append(('take', args[0], v))
            return [(p, v)]
        if n in ('zip', 'izip'):
            return [(p, ('zip',) + tuple(args))]
        if n == 'enumerate' and len(args) == 1:
            return [(p, ('zip', ('range', ('all',)), args[0]))]
        if n == 'len' and len(args) == 1:
            return [(p, ('len', args[0]))]
        if n == 'min' and len(args) == 2:
            return [(p, ('min', frozenset(args)))]
        if n == 'cpu_count':
            return [(p, ('ncpu',))]
        if f[1] == 'os.pipe':
            return [(p, ('tuple', ('token', 'r'), ('token', 'w')))]
        if n == 'Pipe':
            return [(p, ('pipe', kw.get('duplex', ('const', True))))]
        if n == 'Process':
            return [(p, ('process', kw.get('target'), kw.get('args')))]
        if f[1] == 'os.read':
            v = self.fresh('announced')
            p.eff.append(('hear', args[0], v, args[1]))
            return [(p, ('bytes', v))]
        if f[1] == 'os.write':
            p.eff.append(('announce', args[0], args[1]))
            return [(p, ('const', 4))]
        if f[1] == 'os.close':
            p.eff.append(('close', args[0]))
            return [(p, ('const', None))]
        if f[1] == 'struct.unpack' and args[1][0] == 'bytes':
            return [(p, ('tuple', ('decoded', args[0], args[1][1])))]
        if f[1] == 'struct.pack':
            return [(p, ('encoded',) + tuple(args))]
        if n in ('list', 'tuple') and len(args) == 1:
            return [(p, args[0])]
        return [(p, ('text',) if 'format' in n else
            ('other', ast.unparse(e)))]

    def method(self, b, n, args, kw, p, e):
        if n == 'recv' and not args:
            v = self.fresh('received', b)
            p.eff.append(('recv', b, v))
            return [(p, v)]
        if n == 'send' and len(args) == 1:
            ok = p.fork()
            ok.eff.append(('send', b, args[0]))
            if carries(args[0]):
                bad = p.fork(end='raise', val=('failed', 'send'))
                return [(ok, ('const', None)), (bad, ('none',))]
            return [(ok, ('const', None))]
        if n in ('start', 'join', 'terminate', 'close', 'is_alive'):
            p.eff.append((n, b))
            return [(p, ('alive', b) if n == 'is_alive'
                else ('const', None))]
        if n == 'append' and len(args) == 1:
            p.eff.append(('append', e.func.value.id if isinstance(
                e.func.value, ast.Name) else b, args[0]))
        return [(p, ('other', ast.unparse(e)))]

    def inline(self, f, args, kw, p):
        node = f[1]
        if self.depth > 6:
            raise Unreadable('recursion in %s' % node.name)
        names = [a.arg for a in node.args.args]
        env = dict(p.env) if f[2] is not None else {}
        for n, d in zip(names[::-1], node.args.defaults[::-1]):
            env[n] = self.ev(d, p)[0][1]
        env.update(zip(names, args))
        env.update(kw)
        self.depth += 1
        out = []
        start = Path(env, p.eff, p.facts)
        for q in self.block(node.body, start):
            r = Path(p.env, q.eff, q.facts)
            if q.end == 'raise':
                r.end, r.val = 'raise', q.val
                out.append((r, ('none',)))
            else:
                out.append((r, q.val or ('const', None)))
        self.depth -= 1
        return out


class Unreadable(Exception):
    pass


def catches(h, module):
    if h.type is None:
        return True
    names = [ast.unparse(x) for x in (h.type.elts
        if isinstance(h.type, ast.Tuple) else [h.type])]
    return any(n in ('Exception', 'BaseException') for n in names)


def carries(v):
    """Does a message carry what a task returned, which may not pickle?"""
    if isinstance(v, tuple):
        return v[:1] == ('value',) or any(carries(x) for x in v)
    return False


def compare(o, a, b):
    if o in ('Is', 'Eq', 'IsNot', 'NotEq'):
        neg = o in ('IsNot', 'NotEq')
        if a[0] == b[0] == 'const':
            return ('const', (a[1] == b[1]) != neg)
        c = ('same', frozenset([a, b]))
        return ('not', c) if neg else c
    if o == 'Gt':
        return ('lt', b, a)
    if o == 'Lt':
        return ('lt', a, b)
    if o == 'LtE':
        return ('not', ('lt', b, a))
    if o == 'GtE':
        return ('not', ('lt', a, b))
    return ('cmp', o, a, b)


def part(v, i):
    if v[0] == 'tuple' and isinstance(i, int) and i < len(v) - 1:
        return v[1 + i]
    if v[0] in ('pipes', 'both'):
        return ('pair', v, i if not isinstance(i, int) else ('const', i))
    if v[0] == 'processes':
        return ('worker', i if not isinstance(i, int) else ('const', i))
    if v[0] == 'pair':
        return ('end', v[1], v[2], i)
    if v[0] == 'cell' and i == 0:
        return ('load', v)
    if v == ('tasks',):
        return ('task', i)
    return ('part', v, i)


def element(v, n):
    """One element of what is looped over."""
    if v[0] == 'zip':
        return ('tuple',) + tuple(element(x, n) for x in v[1:])
    if v[0] == 'range':
        return ('index', v[1], n)
    if v[0] == 'iter':
        return ('taken', v, n)
    if v[0] in ('pipes', 'both'):
        return ('pair', v, ('every', n))
    if v[0] in ('processes', 'alive-of'):
        return ('worker', ('every', n))
    return ('each', v, n)


# The worker ---------------------------------------------------------------

def worker(check, r, node, params, env):
    """Each turn of the worker answers one request exactly once."""
    p = Path(env)
    for n, v in params.items():
        p.env[n] = v
    paths = r.block(node.body, p)
    loops = [(x, q) for q in paths for x in q.eff if x[0] == 'loop']
    if not check(len({x[3] for x, _ in loops}) == 1, 'worker:loop',
            'a worker serves requests in one loop', node):
        return None
    turn, shape = loops[0][0][2], None
    head = loops[0][0][1]
    check(head[0] == 'while', 'worker:loop', 'a worker serves until it is '
        'told to stop', node)
    stops = 0
    for t in turn:
        acts = [x for x in t.eff if x[0] in ('recv', 'announce', 'send',
            'work', 'loop', 'hear')]
        got = [x for x in acts if x[0] == 'recv']
        if not check(len(got) == 1 and got[0][1] == ('inbox',),
                'worker:request', 'each turn takes one request from its own '
                'queue', node):
            continue
        i = got[0][2]
        none = ('same', frozenset([i, ('const', None)]))
        end = t.facts.get(none)
        if end:
            stops += 1
            check(t.end in ('break', 'return') and len(acts) == 1,
                'worker:stop', 'asked to stop, a worker leaves at once '
                'without announcing anything', node)
            continue
        check(end is False, 'worker:stop', 'a request of None is the one '
            'that stops a worker; this path does not ask: %s' % say(acts),
            node)
        if t.end == 'raise':
            what = {'f': 'of the task', 'send': 'to pickle a result'}.get(
                t.val[1] if len(t.val) > 1 else '', '')
            check(False, 'worker:failure', 'a failure %s ends the worker, and '
                'its answer never comes (%s)' % (what, say(acts)), node)
            continue
        check(t.end in (None, 'continue'), 'worker:turn', 'a worker goes on '
            'after an answer', node)
        ann = [x for x in acts if x[0] == 'announce']
        check(len(ann) == 1 and ann[0][1] == ('mailbox',) and ann[0][2][0] ==
            'encoded' and ann[0][2][-1] == ('me',), 'worker:announce',
            'a worker announces each answer once, with its own number; this '
            'path does: %s' % say(acts), node)
        fmt = ann[0][2][1] if ann and ann[0][2][0] == 'encoded' else None
        sent = [x for x in acts if x[0] == 'send']
        if not check(len(sent) == 1 and sent[0][1] == ('outbox',),
                'worker:answer', 'a worker sends one answer per request; '
                'this path does: %s' % say(acts), node):
            continue
        v = sent[0][2]
        parts = v[1:] if v[0] == 'tuple' else ()
        kind = []
        good = any(carries(x) for x in parts)
        for x in parts:
            if x == i:
                kind.append('index')
            elif x == ('const', good):
                kind.append('ok')
            elif x == ('value', (('task', i),)):
                kind.append('value')
            elif x[0] in ('text', 'other', 'op', 'const'):
                kind.append('value' if not good and x[0] != 'const'
                    else 'wrong')
            else:
                kind.append('wrong')
        check(sorted(kind) == ['index', 'ok', 'value'], 'worker:answer',
            'an answer carries its index, whether the task succeeded, and '
            'the result of the task at that index', node)
        if shape is None:
            shape = tuple(kind), fmt
        check(shape == (tuple(kind), fmt), 'worker:answer', 'every answer '
            'has the same layout', node)
        work = [x for x in acts if x[0] == 'work']
        check(len(work) <= 1 and (not good or work[0][1] == (('task', i),)),
            'worker:task', 'each task is done once', node)
    check(stops >= 1, 'worker:stop', 'a worker can be told to stop', node)
    return shape


def say(acts):
    return ', '.join(x[0] for x in acts) or 'nothing'


# The parent -----------------------------------------------------------------

def classify(x, R):
    """What a loop of the parent is for."""
    _, head, turn, line = x
    turn = [t for t in turn if any(protocol(e) for e in t.eff)]
    if not turn:
        return None
    ops = {e[0] for t in turn for e in t.eff if protocol(e)}
    if ops == {'start'}:
        return 'start'
    if ops == {'join'}:
        return 'join'
    if ops <= {'terminate', 'is_alive'}:
        return 'terminate'
    if ops == {'close'}:
        return 'close'
    sends = [e for t in turn for e in t.eff if e[0] == 'send']
    if ops == {'send'} and all(e[2] == ('const', None) for e in sends):
        return 'cancel'
    if ops <= {'send', 'take'}:
        return 'first'
    if sends:
        return 'refill'
    return 'collect'


def protocol(e):
    return e[0] in ('send', 'recv', 'hear', 'start', 'join', 'terminate',
        'close', 'is_alive', 'store', 'append', 'take', 'loop')


def each(head, x):
    """Does the loop visit every one of the pool with this element?"""
    if head[0] != 'for' or x[0] not in ('worker', 'end'):
        return False
    v = head[1]
    j = x[-1] if x[0] in ('worker',) else x[2]
    if j[0] == 'every':
        return v[0] in (
            'pipes', 'both', 'processes', 'zip', 'alive-of')
    if j[0] == 'index':
        return j[1] in (('ncpu',), ('all',)) or j[1][0] == 'len'
    return False


def run(ctx):
    r0 = ctx.rule('pool.protocol', 'Every task is given to one worker, every '
        'request gets one answer, every answer is stored at its place or '
        'raised, and the workers are stopped.')
    f = ctx.ix.fn(MAIN)
    ctx.saw(f)
    where = f.where()

    def check(ok, what, msg, node=None):
        at = '%s:%d' % (where.rsplit(':', 1)[0], node.lineno) \
            if node is not None else where
        ctx.check(ok, r0, 'parallel_map:' + what, msg, at)
        return ok
    try:
        parent(ctx, f, check)
    except (Unreadable, IndexError, KeyError, TypeError, ValueError) as e:
        ctx.violation(r0, 'parallel_map', 'cannot be read: %s' % e, where)


def parent(ctx, f, check):
    R = Reader(ctx.ix, f.module)
    ps = f.params
    env = {ps[0]: ('task-function',), ps[1]: ('tasks',)}
    for x in ps[2:]:
        env[x] = ('ncpu',)
    paths = [p for p in R.block(f.node.body, Path(env)) if p.end == 'return']
    n = ('len', ('tasks',))
    if not check(len(paths) > 0, 'result', 'results are returned'):
        return
    # Workers.
    shape = procs = None
    main = max(paths, key=lambda p: len(p.eff))
    for v in main.env.values():
        if isinstance(v, tuple) and v[:1] == ('processes',):
            procs = v
    if not check(procs is not None and procs[1][1] is not None and
            procs[1][1][0] == 'function', 'workers',
            'there is a pool of workers with one main function'):
        return
    size = procs[2]
    if size[:2] == ('zip', ('range', ('all',))) and size[2][0] == 'pipes':
        size = size[2][2]
    check(size == ('range', ('ncpu',)), 'workers', 'there are as many '
        'workers as were asked for')
    node, given = procs[1][1][1], procs[1][2]
    names = [a.arg for a in node.args.args]
    inq = outq = None
    params = {}
    for name, v in zip(names, given[1:] if given else ()):
        if v[0] == 'index':
            params[name] = ('me',)
        elif v == ('token', 'w'):
            params[name] = ('mailbox',)
        elif v[0] == 'end' and v[2][0] == 'index' and v[3] in (0, 1):
            if v[3] == 0:
                inq = v[1]
                params[name] = ('inbox',)
            else:
                outq = v[1]
                params[name] = ('outbox',)
        elif v in (('task-function',), ('tasks',)):
            params[name] = v
        else:
            params[name] = v
    if not check(inq is not None and outq is not None and inq != outq and
            {'me', 'mailbox', 'inbox', 'outbox'} <= {
            v[0] for v in params.values()}, 'workers', 'a worker gets its '
            'number, the reading end of its own request queue, the writing '
            'end of its own answer queue, and the shared mailbox'):
        return
    for q, d in ((inq, 'request'), (outq, 'answer')):
        check(q[2] == ('range', ('ncpu',)), 'queues', 'each worker has its '
            'own %s queue' % d)
    W = Reader(ctx.ix, f.module)
    shape = worker(check, W, node, params, {k: v for k, v in main.env.items()
        if isinstance(v, tuple) and v[0] in ('function', 'task-function',
        'tasks', 'token')})
    if shape is None:
        return
    (order, fmt) = shape
    for p in paths:
        one(p, R, check, f, n, inq, outq, order, fmt)


def one(p, R, check, f, n, inq, outq, order, fmt):
    """One way through the parent."""
    flat = list(p.eff)
    seen = []
    loops = {}
    for k, x in enumerate(flat):
        if x[0] == 'loop':
            c = classify(x, R)
            if c is not None:
                seen.append(c)
                loops.setdefault(c, []).append((k, x))
        elif x[0] == 'send' and x[2] == ('const', None):
            pass
    node = f.node

    def once(c, what):
        return check(len(loops.get(c, ())) == 1, c, '%s; found %d such loops'
            % (what, len(loops.get(c, ()))), node)
    ok = once('start', 'every worker is started once')
    ok &= once('first', 'first, one task is given to each worker')
    ok &= once('refill', 'then, each answer is followed by a new task')
    ok &= once('collect', 'then, the rest of the answers are collected')
    ok &= once('cancel', 'then, every worker is told to stop')
    ok &= once('join', 'last, every worker is waited for')
    if not ok:
        return
    at = {c: loops[c][0][0] for c in loops}
    check(at['first'] < at['refill'] < at['collect'] < at['cancel'] <
        at['join'], 'order', 'tasks are given, answers collected, workers '
        'stopped and waited for in that order', node)
    check(at['start'] < at['refill'], 'order', 'workers start before their '
        'answers are awaited', node)
    res = p.val
    check(res[0] == 'results' and res[2] == n, 'result', 'there is one result '
        'for each task', node)
    # Starting, stopping and waiting for all.
    for c, op in (('start', 'start'), ('join', 'join')):
        _, x = loops[c][0]
        check(all([e[0] for e in t.eff] == [op] and each(x[1], t.eff[0][1])
            for t in x[2]), c, 'every worker gets one %s' % op, node)
    _, x = loops['cancel'][0]
    check(all(len(t.eff) == 1 and t.end is None and t.eff[0][1][0] == 'end'
        and t.eff[0][1][1] == inq and t.eff[0][1][3] == 1 and
        each(x[1], t.eff[0][1]) for t in x[2]), 'cancel', 'every worker is '
        'told to stop on its request queue', node)
    # Giving the first tasks.
    _, x = loops['first'][0]
    head, stream = x[1], None
    for t in x[2]:
        e = [y for y in t.eff if y[0] == 'send']
        if not check(len(e) == 1 and e[0][1][0] == 'end' and e[0][1][1] == inq
                and e[0][1][3] == 1 and t.end is None, 'first', 'each worker '
                'is given one task', node):
            return
        j, i = e[0][1][2], e[0][2]
        stream = i[2] if i[0] == 'next' else i[1] if i[0] == 'taken' else None
        good = head[0] == 'for' and j[0] == 'index'
        if i[0] == 'taken':
            good = good and head[1][0] == 'zip' and j[1] == ('ncpu',)
            check(good and head[1][-1][0] == 'iter', 'first', 'the stream of '
                'tasks is the last to be advanced, so that no task is taken '
                'when there is no worker left', node)
        elif i[0] == 'next':
            good = good and j[1] == ('min', frozenset([('ncpu',), n]))
        else:
            good = False
        check(good, 'first', 'the first tasks go to distinct workers, and '
            'there are as many as tasks and workers allow', node)
    check(stream is not None and stream[0] == 'iter' and stream[2] ==
        ('range', n), 'first', 'the tasks are all the indices in turn', node)
    # Answers.
    for c in ('refill', 'collect'):
        _, x = loops[c][0]
        count = answer(x, c, R, check, node, n, inq, outq, order, fmt, stream,
            res)
        if c == 'refill':
            check(x[1] == ('for', stream), c, 'the remaining tasks of the '
                'same stream are given', node)
            kept = count
        else:
            left = x[1]
            good = False
            if left[0] == 'while' and len(left[1]) == 1:
                (fact, val), = left[1]
                loc = None
                if fact[0] == 'lt' and fact[1] == ('const', 0) and val:
                    loc = fact[2]
                elif fact[0] == 'lt' and fact[2] == ('const', 1) and \
                        not val:
                    loc = fact[1]
                elif fact[0] == 'load' and val:
                    loc = fact
                elif fact[0] == 'same' and ('const', 0) in fact[1] and \
                        not val:
                    loc = [y for y in fact[1] if y != ('const', 0)][0]
                good = loc is not None and loc[0] == 'load' and \
                    loc[1] == count == kept and R.first.get(loc[1]) == n
            elif left[0] == 'for':
                good = left[1] == ('range', ('min', frozenset([
                    ('ncpu',), n])))
            check(good, c, 'answers are collected until there is one for '
                'each task', node)
    # When anything goes wrong.
    g = [e for e in flat if e[0] == 'guarded']
    if check(len(g) >= 1, 'failure', 'failures stop the workers', node):
        e = g[-1]
        broad = [h for ok, h in e[2] if ok]
        good = len(broad) >= 1
        for t in (broad[0] if broad else ()):
            ls = [y for y in t.eff if y[0] == 'loop' and classify(y, R) ==
                'terminate']
            good = good and t.end == 'raise' and any(stopped(y) for y in ls)
        check(good, 'failure', 'on any failure every live worker is '
            'terminated and the failure is raised', node)
        check(e[4] <= min(at[c] for c in ('start', 'first')), 'failure',
            'everything from the start of the workers is protected', node)
        shut = closed(e[3], R, inq, outq)
        check(shut, 'close', 'both ends of every queue and of the mailbox '
            'are closed in any case', node)


def stopped(x):
    """A loop that terminates every worker that is alive."""
    _, head, turn, _line = x
    ok = True
    hit = False
    for t in turn:
        ends = [e for e in t.eff if e[0] == 'terminate']
        alive = [v for k, v in t.facts.items() if k[0] == 'alive']
        if ends:
            hit = hit or each(head, ends[0][1])
        elif not (alive and alive[0] is False):
            ok = False
    return ok and hit


def closed(fin, R, inq, outq):
    if not fin:
        return False
    for t in fin:
        if t.end is not None:
            return False
        got = set()
        for x in t.eff:
            if x[0] == 'close':
                got.add(x[1])
            elif x[0] == 'loop':
                for u in x[2]:
                    for y in u.eff:
                        if y[0] == 'close' and y[1][0] == 'end' and \
                                each(x[1], y[1]):
                            for q in queues(y[1][1]):
                                got.add((q, y[1][3]))
        need = {('token', 'r'), ('token', 'w')} | {
            (q, e) for q in (inq, outq) for e in (0, 1)}
        if not need <= got:
            return False
    return True


def queues(v):
    if v[0] == 'both':
        return queues(v[1]) + queues(v[2])
    return [v]


def answer(x, c, R, check, node, n, inq, outq, order, fmt, stream, res):
    """Each turn hears one announcement, receives that answer, and stores or
    raises it; returns what it counts down."""
    _, head, turn, _line = x
    count = None
    for t in turn:
        hear = [e for e in t.eff if e[0] == 'hear']
        if not check(len(hear) == 1 and hear[0][1] == ('token', 'r') and
                hear[0][3] == ('const', 4), c, 'each turn hears one '
                'announcement', node):
            continue
        j = ('decoded', fmt, hear[0][2])
        recv = [e for e in t.eff if e[0] == 'recv']
        if not check(len(recv) == 1 and recv[0][1] == ('end', outq, j, 0), c,
                'each turn receives the answer of the worker that announced '
                'it', node):
            continue
        v = recv[0][2]
        at = {k: ('part', v, order.index(k)) for k in order}
        good = t.facts.get(at['ok'])
        store = [e for e in t.eff if e[0] == 'store']
        if good is False:
            check(t.end == 'raise' and not store, c, 'a failed task raises',
                node)
            continue
        check(good is True, c, 'an answer is used only after asking whether '
            'the task succeeded', node)
        check(t.end is None or t.end == 'continue', c, 'collecting goes on '
            'after an answer', node)
        check([e[1:] for e in store] == [(res, at['index'], at['value'])], c,
            'the result goes to the place of its task', node)
        down = [e for e in t.eff if e[0] == 'count']
        if head[0] == 'while' or down:
            check(len(down) == 1 and down[0][2] == 'Sub' and down[0][3] ==
                ('const', 1), c, 'each answer is counted once', node)
            count = down[0][1] if down else None
        sends = [e for e in t.eff if e[0] == 'send']
        if c == 'refill':
            check(len(sends) == 1 and sends[0][1] == ('end', inq, j, 1) and
                sends[0][2][0] == 'taken' and sends[0][2][1] == stream, c,
                'the worker whose answer came gets the next task', node)
        else:
            check(not sends, c, 'no further tasks', node)
    return count
