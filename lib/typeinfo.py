"""Attribute types of repository classes, inferred from constructors and
container stores; a short table covers duck-typed containers."""
import ast

from front import Class, Func

# (class, attribute) -> element/direct class; confirmed by reading.
HINTS = {
    ('State', 'views'): ('of', 'cgpm.mixtures.view.View', 'dict'),
    ('State', 'crp'): 'cgpm.mixtures.dim.Dim',
    ('View', 'dims'): ('of', 'cgpm.mixtures.dim.Dim', 'dict'),
    ('View', 'crp'): 'cgpm.mixtures.dim.Dim',
    ('Dim', 'clusters'): ('of', 'cgpm.primitives.distribution.DistributionGpm',
        'dict'),
    ('Dim', 'aux_model'): 'cgpm.primitives.distribution.DistributionGpm',
    ('Engine', 'states'): ('of', 'cgpm.crosscat.state.State', 'list'),
    ('State', 'hooked_cgpms'): ('of', 'cgpm.cgpm.CGpm', 'dict'),
    ('ImportanceNetwork', 'cgpms'): ('of', 'cgpm.cgpm.CGpm', 'list'),
    ('DirectedXyGpm', 'network'):
        'cgpm.network.importance.ImportanceNetwork',
}
# Methods returning typed values.
METHOD_TYPES = {
    ('State', 'dim_for'): 'cgpm.mixtures.dim.Dim',
    ('State', 'view_for'): 'cgpm.mixtures.view.View',
    ('State', 'build_network'): 'cgpm.network.importance.ImportanceNetwork',
    ('View', 'build_network'): 'cgpm.network.importance.ImportanceNetwork',
}


class Types(object):
    def __init__(self, ix):
        self.ix = ix
        self.table = {}
        for c in ix.all_classes():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(
                                    t.value, ast.Name) and \
                                    t.value.id == 'self':
                                r = self._expr(c, n.value)
                                if r:
                                    self.table.setdefault(
                                        (c.name, t.attr), r)

    def _expr(self, c, e):
        if isinstance(e, ast.Call):
            r = self.ix.resolve_expr(c.module, e.func)
            if isinstance(r, Class):
                return r.qual
        if isinstance(e, ast.ListComp) and isinstance(e.elt, ast.Call):
            r = self.ix.resolve_expr(c.module, e.elt.func)
            if isinstance(r, Class):
                return ('of', r.qual, 'list')
        return None

    def _materialise(self, r):
        if r is None:
            return None
        if isinstance(r, tuple):
            return ('of', self._materialise(r[1]), r[2])
        x = self.ix.resolve_dotted(r)
        return x if isinstance(x, Class) else None

    def attr(self, cls, name):
        for c in cls.mro():
            r = HINTS.get((c.name, name)) or self.table.get((c.name, name))
            if r:
                return self._materialise(r)
        return None

    def call(self, an, t):
        f = t.a[0]
        if f.op == 'attr':
            b = an.typeof(f.a[0])
            nm = f.a[1].split('@')[0]
            if isinstance(b, Class):
                for c in b.mro():
                    r = METHOD_TYPES.get((c.name, nm))
                    if r:
                        return self._materialise(r)
            if isinstance(b, tuple) and b[0] == 'of' and nm == 'values':
                return ('of', b[1], 'list')
        return None
