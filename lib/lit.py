"""Values of constant expressions written at the top level of a module."""
import ast


class Unknown(Exception):
    pass


def value(m, n, depth=0):
    if depth > 40:
        raise Unknown()

    def go(x):
        return value(m, x, depth + 1)
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        if n.id in m.consts:
            return go(m.consts[n.id])
        raise Unknown(n.id)
    if isinstance(n, (ast.Tuple, ast.List)):
        return type(())(go(x) for x in n.elts) if isinstance(n, ast.Tuple) \
            else [go(x) for x in n.elts]
    if isinstance(n, ast.Dict):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(go(v))
            else:
                out[go(k)] = go(v)
        return out
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -go(n.operand)
    if isinstance(n, ast.BinOp):
        a, b = go(n.left), go(n.right)
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Mod) and isinstance(a, str):
            return a % b
        if isinstance(n.op, ast.Mult):
            return a * b
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id in ('dict', 'tuple', 'list', 'OrderedDict'):
        a = [go(x) for x in n.args]
        k = {}
        for x in n.keywords:
            if x.arg is None:
                k.update(go(x.value))
            else:
                k[x.arg] = go(x.value)
        f = {'tuple': tuple, 'list': list}.get(n.func.id, dict)
        return f(*a, **k)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr in ('format', 'join', 'lower') and not n.keywords:
        s = go(n.func.value)
        if isinstance(s, str):
            return getattr(s, n.func.attr)(*[go(x) for x in n.args])
    if isinstance(n, (ast.DictComp, ast.ListComp)) and \
            len(n.generators) == 1 and not n.generators[0].ifs:
        g = n.generators[0]
        src = go(g.iter)

        def bind(t, v, env):
            if isinstance(t, ast.Name):
                env[t.id] = ast.Constant(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x, y in zip(t.elts, v):
                    bind(x, y, env)
            else:
                raise Unknown()
        rows = []
        for v in src:
            env = dict(m.consts)
            bind(g.target, v, env)
            inner = type('M', (), {'consts': env})
            if isinstance(n, ast.DictComp):
                rows.append((value(inner, n.key, depth + 1),
                    value(inner, n.value, depth + 1)))
            else:
                rows.append(value(inner, n.elt, depth + 1))
        return dict(rows) if isinstance(n, ast.DictComp) else rows
    raise Unknown(ast.dump(n)[:60])


def const(m, name):
    """The value a module-level name holds when the module is loaded."""
    if name not in m.consts:
        raise Unknown(name)
    try:
        out = value(m, m.consts[name])
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value,
                            ast.Name) and t.value.id == name:
                        out[value(m, t.slice)] = value(m, s.value)
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value,
                            ast.Name) and t.value.id == name:
                        del out[value(m, t.slice)]
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                    and isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, ast.Name) and \
                    s.value.func.value.id == name:
                if s.value.func.attr != 'update':
                    raise Unknown(name)
                c = s.value
                for a in c.args:
                    out.update(value(m, a))
                for k in c.keywords:
                    out[k.arg] = value(m, k.value)
        return out
    except (TypeError, KeyError, ValueError, AttributeError):
        raise Unknown(name)
