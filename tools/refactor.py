"""Rewrite the source mechanically without changing what it does, and run the
checks on the copy: every alarm is a false one.

usage: refactor.py KIND[,KIND...]|all [PROPERTY...]   (CGPM source: /repo)"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import front        # noqa: E402

N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return '%s_%d' % (p, N[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v, lineno=0)


class Blocks(ast.NodeTransformer):
    """Applies self.block to every statement list inside functions."""
    infun = 0

    def visit_FunctionDef(self, node):
        self.infun += 1
        self.generic_visit(node)
        node.body = self.stmts(node.body, node)
        self.infun -= 1
        return node

    def generic_visit(self, node):
        super(Blocks, self).generic_visit(node)
        if self.infun and not isinstance(node, (ast.FunctionDef, ast.ClassDef,
                ast.Lambda)):
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(node, f, None)
                if isinstance(v, list) and v:
                    setattr(node, f, self.stmts(v, node))
        return node

    def stmts(self, body, node):
        out = []
        for i, s in enumerate(body):
            out.extend(self.stmt(s, body, i))
        return out

    def stmt(self, s, body, i):
        return [s]


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


class Noop(Blocks):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        doc = node.body[:1] if isinstance(node.body[0], ast.Expr) and \
            isinstance(node.body[0].value, ast.Constant) else []
        node.body = doc + [assign(fresh('unused'), ast.Constant(0))] \
            + node.body[len(doc):]
        return node


class RetTemp(Blocks):
    def stmt(self, s, body, i):
        if isinstance(s, ast.Return) and s.value is not None \
                and not simple(s.value):
            t = fresh('result')
            return [assign(t, s.value), ast.Return(name(t))]
        return [s]


class AssignTemp(Blocks):
    def stmt(self, s, body, i):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                not simple(s.value):
            t = fresh('value')
            return [assign(t, s.value), ast.Assign(s.targets, name(t),
                lineno=0)]
        return [s]


class ArgTemp(Blocks):
    """f(a, g(b)) -> t = g(b); f(a, t) when evaluation order allows."""

    def stmt(self, s, body, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and \
                isinstance(v, ast.Call) and isinstance(v.func, (ast.Name,
                ast.Attribute)):
            if isinstance(v.func, ast.Attribute) and has(v.func.value,
                    ast.Call):
                return [s]
            pre = []
            for j, a in enumerate(v.args):
                if isinstance(a, ast.Starred):
                    break
                if not simple(a):
                    t = fresh('arg')
                    pre.append(assign(t, a))
                    v.args[j] = name(t)
            return pre + [s]
        return [s]


class SwapIf(Blocks):
    def stmt(self, s, body, i):
        if isinstance(s, ast.If) and s.orelse and not (
                len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), \
                s.orelse, s.body
        return [s]


class IfExpOut(Blocks):
    def stmt(self, s, body, i):
        v = getattr(s, 'value', None)
        if isinstance(v, ast.IfExp) and isinstance(s, (ast.Return,
                ast.Assign)):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            return [ast.If(v.test, [a], [b])]
        return [s]


class IfExpIn(Blocks):
    """if c: x = a else: x = b -> x = a if c else b"""

    def stmt(self, s, body, i):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and \
                    a.value is not None and b.value is not None:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    ast.dump(ast.Module(a.targets, [])) == ast.dump(
                    ast.Module(b.targets, [])):
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value,
                    b.value), lineno=0)]
        return [s]


class CompLoop(Blocks):
    """List/dict comprehension -> loop."""

    def stmt(self, s, body, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v,
                (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
            g = v.generators[0]
            t = fresh('acc')
            # Loop variables leak: rename them.
            ren = {x.id: fresh(x.id) for x in ast.walk(g.target)
                if isinstance(x, ast.Name)}
            inner = [v.elt] if isinstance(v, ast.ListComp) else [v.key,
                v.value]
            for y in [g.target] + g.ifs + inner:
                for x in ast.walk(y):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            if isinstance(v, ast.ListComp):
                init = ast.List([], ast.Load())
                act = ast.Expr(ast.Call(ast.Attribute(name(t), 'append',
                    ast.Load()), [v.elt], []))
            else:
                init = ast.Dict([], [])
                act = ast.Assign([ast.Subscript(name(t), v.key,
                    ast.Store())], v.value, lineno=0)
            b = [act]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            s.value = name(t)
            return [assign(t, init), ast.For(g.target, g.iter, b, [],
                lineno=0), s]
        return [s]


class LoopComp(Blocks):
    """x = []; for ..: x.append(e) -> x = [e for ..]"""

    def stmts(self, body, node):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            n = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) \
                    and not s.value.elts and isinstance(n, ast.For) and \
                    len(n.body) == 1 and not n.orelse and \
                    isinstance(s.targets[0], ast.Name) and \
                    isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Call):
                c = n.body[0].value
                if isinstance(c.func, ast.Attribute) and \
                        c.func.attr == 'append' and isinstance(c.func.value,
                        ast.Name) and c.func.value.id == s.targets[0].id:
                    out.append(ast.Assign(s.targets, ast.ListComp(c.args[0],
                        [ast.comprehension(n.target, n.iter, [], 0)]),
                        lineno=0))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class SumLoop(Blocks):
    def stmt(self, s, body, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v,
                ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == 'sum' and len(v.args) == 1 and isinstance(
                v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(
                v.args[0].generators) == 1:
            g = v.args[0].generators[0]
            t = fresh('total')
            b = [ast.AugAssign(name(t, True), ast.Add(), v.args[0].elt)]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            s.value = name(t)
            return [assign(t, ast.Constant(0)), ast.For(g.target, g.iter, b,
                [], lineno=0), s]
        return [s]


class Guard(Blocks):
    """if c: ...return; rest -> if c: ... else: rest (and back)."""

    def stmts(self, body, node):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                return body[:i] + [ast.If(s.test, s.body,
                    self.stmts(body[i + 1:], node))]
        return body


class Unguard(Blocks):
    def stmts(self, body, node):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1],
                    (ast.Return, ast.Raise)):
                rest = s.orelse
                s.orelse = []
                out.append(s)
                out.extend(self.stmts(rest, node))
            else:
                out.append(s)
        return out


class AndNest(Blocks):
    def stmt(self, s, body, i):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test,
                ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for c in reversed(s.test.values):
                b = [ast.If(c, b, [])]
            return b
        return [s]


class AssertRaise(Blocks):
    """assert c -> if not c: raise AssertionError."""

    def stmt(self, s, body, i):
        if isinstance(s, ast.Assert):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(
                ast.Call(name('AssertionError'), [], []))], [])]
        return [s]


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        if has(node, ast.Global) or any(isinstance(x, (ast.FunctionDef,
                ast.Lambda)) for x in ast.walk(node) if x is not node):
            return node
        params = {a.arg for a in node.args.args}
        if node.args.vararg:
            params.add(node.args.vararg.arg)
        if node.args.kwarg:
            params.add(node.args.kwarg.arg)
        loc = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_renamed'
        return node


class Extract(ast.NodeTransformer):
    """return e in a method -> return self._extracted_n(args)."""

    def visit_ClassDef(self, node):
        out = []
        for f in node.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or \
                    not f.args.args or f.args.args[0].arg != 'self':
                continue
            last = f.body[-1]
            if not isinstance(last, ast.Return) or last.value is None or \
                    simple(last.value) or f.args.vararg or f.args.kwarg:
                continue
            stored = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)
                and isinstance(x.ctx, ast.Store)}
            inner = {x.id for c in ast.walk(last) if isinstance(c,
                ast.comprehension) for x in ast.walk(c.target)
                if isinstance(x, ast.Name)}
            local = (stored | {a.arg for a in f.args.args}
                | {x.name for x in ast.walk(f) if isinstance(x,
                ast.FunctionDef) and x is not f}
                | {(a.asname or a.name).split('.')[0] for x in ast.walk(f)
                if isinstance(x, (ast.Import, ast.ImportFrom))
                for a in x.names})
            used = {x.id for x in ast.walk(last) if isinstance(x, ast.Name)}
            if inner & (used - inner):
                continue
            used = sorted((used & local) - inner - {'self'})
            t = fresh('_extracted')
            out.append(ast.FunctionDef(t, ast.arguments([], [ast.arg(a)
                for a in ['self'] + used], None, [], [], None, []),
                [ast.Return(last.value)], [], lineno=0))
            f.body[-1] = ast.Return(ast.Call(ast.Attribute(name('self'), t,
                ast.Load()), [name(a) for a in used], []))
        node.body = out
        return node


class ExtractFun(ast.NodeTransformer):
    """Same, into a module-level function, for assignments x = e."""

    def visit_Module(self, node):
        new = []
        for c in node.body:
            fs = [c] if isinstance(c, ast.FunctionDef) else [
                f for f in getattr(c, 'body', []) if isinstance(f,
                ast.FunctionDef)] if isinstance(c, ast.ClassDef) else []
            for f in fs:
                if any(isinstance(x, (ast.FunctionDef, ast.Lambda))
                        for x in ast.walk(f) if x is not f):
                    continue
                local = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)
                    and isinstance(x.ctx, ast.Store)} | {a.arg for a in
                    f.args.args} | {(a.asname or a.name).split('.')[0]
                    for x in ast.walk(f) if isinstance(x, (ast.Import,
                    ast.ImportFrom)) for a in x.names}
                local |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
                for s in f.body:
                    if not isinstance(s, ast.Assign) or simple(s.value) or \
                            has(s.value, ast.Yield):
                        continue
                    inner = {x.id for k in ast.walk(s.value) if isinstance(k,
                        ast.comprehension) for x in ast.walk(k.target)
                        if isinstance(x, ast.Name)}
                    used = {x.id for x in ast.walk(s.value)
                        if isinstance(x, ast.Name)}
                    used = sorted((used & local) - inner)
                    t = fresh('_helper')
                    new.append(ast.FunctionDef(t, ast.arguments([], [
                        ast.arg(a) for a in used], None, [], [], None, []),
                        [ast.Return(s.value)], [], lineno=0))
                    s.value = ast.Call(name(t), [name(a) for a in used], [])
                    break
        node.body = node.body + new
        return node


class EnumLoop(Blocks):
    """for x in xs: -> for i in xrange(len(xs)): x = xs[i] (named lists)."""

    def stmt(self, s, body, i):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == \
                'enumerate' and isinstance(s.target, ast.Tuple) and \
                isinstance(s.iter.args[0], ast.Name) and len(
                s.iter.args) == 1:
            k, v = s.target.elts
            return [ast.For(k, ast.Call(name('xrange'), [ast.Call(
                name('len'), [s.iter.args[0]], [])], []), [ast.Assign([v],
                ast.Subscript(s.iter.args[0], ast.Name(k.id, ast.Load()),
                ast.Load()), lineno=0)] + s.body, s.orelse, lineno=0)]
        return [s]


class ItemsLoop(ast.NodeTransformer):
    """iteritems/itervalues/iterkeys -> items/values/keys."""

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ('iteritems', 'itervalues', 'iterkeys'):
            node.attr = node.attr[4:]
        return node


class DictCall(ast.NodeTransformer):
    """{} -> dict(), [] -> list(), and not x is None -> x is not None."""

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:
            return ast.Call(name('dict'), [], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.Is()],
                node.comparators))
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.In()],
                node.comparators))
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Lt, ast.LtE)):
            op = {ast.Lt: ast.Gt, ast.LtE: ast.GtE}[type(node.ops[0])]()
            return ast.Compare(node.comparators[0], [op], [node.left])
        return node


class Kwargs(ast.NodeTransformer):
    """self.m(a, b) -> self.m(a, name=b) for methods of the same class."""

    def visit_ClassDef(self, node):
        sig = {}
        for f in node.body:
            if isinstance(f, ast.FunctionDef) and not f.args.vararg and \
                    not f.decorator_list:
                sig[f.name] = [a.arg for a in f.args.args][1:]
        for c in ast.walk(node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) \
                    and isinstance(c.func.value, ast.Name) and \
                    c.func.value.id == 'self' and c.func.attr in sig and \
                    not any(isinstance(a, ast.Starred) for a in c.args) and \
                    not any(k.arg is None for k in c.keywords):
                p = sig[c.func.attr]
                if len(c.args) > len(p):
                    continue
                c.keywords = [ast.keyword(p[i], a) for i, a in enumerate(
                    c.args)] + c.keywords
                c.args = []
        return node


class Alias(Blocks):
    """Bind self.attr read twice or more (never written) to a local."""

    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(
                node) if x is not node) or not node.args.args or \
                node.args.args[0].arg != 'self' or node.name == '__init__':
            return node
        if has(node, ast.Assign, ast.AugAssign, ast.Delete) and any(
                isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                x.ctx, (ast.Store, ast.Del)) for x in ast.walk(node)):
            return node
        called = {id(c.func) for c in ast.walk(node) if isinstance(c,
            ast.Call)}
        if any(isinstance(c.func, ast.Attribute) and isinstance(c.func.value,
                ast.Name) and c.func.value.id == 'self' for c in ast.walk(
                node) if isinstance(c, ast.Call)):
            return node
        cnt = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                    and x.value.id == 'self' and id(x) not in called:
                cnt.setdefault(x.attr, []).append(x)
        doc = 1 if isinstance(node.body[0], ast.Expr) and isinstance(
            node.body[0].value, ast.Constant) else 0
        pre = []
        for a, xs in sorted(cnt.items()):
            if len(xs) >= 2:
                t = fresh('self_' + a)
                pre.append(assign(t, ast.Attribute(name('self'), a,
                    ast.Load())))
                for x in xs:
                    x.__class__ = ast.Name
                    x.id = t
                    x._fields = ast.Name._fields
        node.body[doc:doc] = pre
        return node


KINDS = {c.__name__: c for c in (Noop, RetTemp, AssignTemp, ArgTemp, SwapIf,
    IfExpOut, IfExpIn, CompLoop, LoopComp, SumLoop, Guard, Unguard, AndNest,
    AssertRaise, Rename, Extract, ExtractFun, EnumLoop, ItemsLoop, DictCall,
    Kwargs, Alias)}


def build(kind, dest, only=None):
    shutil.copytree('/repo/src', dest + '/src')
    for d, _, fs in os.walk(dest + '/src'):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            if only and not any(o in p for o in only):
                continue
            tree = front.parse_py2(open(p).read(), p)
            tree = KINDS[kind]().visit(tree)
            ast.fix_missing_locations(tree)
            with open(p, 'w') as g:
                g.write(ast.unparse(tree) + '\n')


def main():
    kinds = sorted(KINDS) if sys.argv[1] == 'all' else sys.argv[1].split(',')
    props = sys.argv[2:] or [c['property'] for c in json.load(open(
        os.path.join(HERE, 'MANIFEST.json')))['checks']]
    only = os.environ.get('ONLY', '').split(',') if os.environ.get('ONLY') \
        else None

    def run(job):
        k, p, d = job
        r = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), p],
            env=dict(os.environ, CGPM_REPO=d, EVIDENCE_DIR=d),
            capture_output=True, text=True)
        out = [l for l in r.stdout.split('\n') if l.strip()]
        return k, p, r.returncode, [l.replace(d, '') for l in out], r.stderr
    bad = 0
    dirs = []
    jobs = []
    for k in kinds:
        d = tempfile.mkdtemp(prefix='refac')
        dirs.append(d)
        build(k, d, only)
        jobs += [(k, p, d) for p in props]
    with ThreadPoolExecutor(7) as ex:
        for k, p, rc, out, err in ex.map(run, jobs):
            if rc:
                bad += 1
                print('##', k, p, rc)
                for l in out[:int(os.environ.get('LINES', 4))]:
                    print('    ', l[:int(os.environ.get('WIDTH', 230))])
                if rc != 1:
                    print(err[-300:])
    for d in dirs:
        shutil.rmtree(d)
    print(len(jobs), 'runs,', bad, 'alarms')


if __name__ == '__main__':
    main()
