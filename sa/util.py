"""Name and callee resolution shared by the rule modules."""
import ast
import builtins

from .project import Class, Func, Module, local_bindings, own_nodes

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__spec__', '__builtins__',
                                 '__class__', '__package__', '__loader__', '__debug__'}


class Scopes:
    """Resolves names inside functions, honouring local shadowing and function-level imports."""

    def __init__(self, p):
        self.p = p
        self._lb = {}
        self._assigned = {}
        self._limports = {}

    def locals_of(self, f):
        if f not in self._lb:
            self._lb[f] = local_bindings(f.node)
        return self._lb[f]

    def local_imports(self, f):
        if f not in self._limports:
            t = {}
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.p._bind_import(f.module, n, t)
            self._limports[f] = t
        return self._limports[f]

    def assigned(self, f):
        """local name -> list of assigned value expressions (None for opaque bindings)."""
        if f in self._assigned:
            return self._assigned[f]
        out = {}

        def put(t, v):
            if isinstance(t, ast.Name):
                out.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) \
                        and not any(isinstance(x, ast.Starred) for x in t.elts + v.elts):
                    for a, b in zip(t.elts, v.elts):
                        put(a, b)
                else:
                    for a in t.elts:
                        put(a, None)
            elif isinstance(t, ast.Starred):
                put(t.value, None)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    put(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                put(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                put(n.target, None)
            elif isinstance(n, ast.NamedExpr):
                put(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                put(n.target, None)
            elif isinstance(n, ast.comprehension):
                put(n.target, None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                put(n.optional_vars, n.context_expr)
        self._assigned[f] = out
        return out

    def owner_of_name(self, f, name):
        """The Func (f or an enclosing one) in which a name is local, or None (module/builtin)."""
        g = f
        while g is not None:
            if name in self.locals_of(g):
                return g
            g = g.parent
        return None

    def resolve(self, m, f, expr, depth=0):
        """Set of targets an expression may denote: Class | Func | Module | external dotted str."""
        if depth > 6:
            return set()
        if isinstance(expr, ast.Name):
            owner = self.owner_of_name(f, expr.id) if f is not None else None
            if owner is not None:
                out = set()
                imp = self.local_imports(owner)
                if expr.id in imp and imp[expr.id][0] == 'import':
                    r = self.p.resolve_dotted(imp[expr.id][1])
                    return {r} if r is not None else set()
                if expr.id in owner._nested:
                    return {owner._nested[expr.id]}
                for v in self.assigned(owner).get(expr.id, []):
                    if v is not None and not (isinstance(v, ast.Name) and v.id == expr.id):
                        out |= self.resolve(m, owner, v, depth + 1)
                return out
            r = self.p.resolve_in_module(m, expr.id)
            if isinstance(r, tuple) and r[0] == 'global':
                out = set()
                for st in r[1].tree.body:
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2]
                                                          for t in st.targets):
                        out |= self.resolve(r[1], None, st.value, depth + 1)
                return out
            if r is not None:
                return {r}
            if expr.id in BUILTINS:
                return {'builtins.' + expr.id}
            return set()
        if isinstance(expr, ast.Attribute):
            out = set()
            for o in self.resolve(m, f, expr.value, depth + 1):
                if isinstance(o, Module):
                    r = self.p.resolve_in_module(o, expr.attr)
                    if r is not None and not (isinstance(r, tuple)):
                        out.add(r)
                elif isinstance(o, Class):
                    hit = o.lookup(expr.attr)
                    if hit and hit[0] == 'method':
                        out.add(hit[1])
                elif isinstance(o, str):
                    r = self.p.resolve_dotted(str(o) + '.' + expr.attr) if not o.startswith('builtins.') \
                        else o + '.' + expr.attr
                    if r is not None and not isinstance(r, tuple):
                        out.add(r)
            return out
        if isinstance(expr, ast.IfExp):
            return self.resolve(m, f, expr.body, depth + 1) | self.resolve(m, f, expr.orelse, depth + 1)
        if isinstance(expr, ast.BoolOp):
            out = set()
            for v in expr.values:
                out |= self.resolve(m, f, v, depth + 1)
            return out
        if isinstance(expr, ast.Subscript):
            return self._dict_values(m, f, expr.value, depth)
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr == 'get':
            out = self._dict_values(m, f, expr.func.value, depth)
            for a in expr.args[1:]:
                out |= self.resolve(m, f, a, depth + 1)
            return out
        if isinstance(expr, ast.Call):
            fs = self.resolve(m, f, expr.func, depth + 1)
            if any(isinstance(x, str) and x.endswith('partial') for x in fs) and expr.args:
                return self.resolve(m, f, expr.args[0], depth + 1)
        return set()

    def _dict_values(self, m, f, expr, depth):
        out = set()
        if isinstance(expr, ast.Dict):
            for v in expr.values:
                out |= self.resolve(m, f, v, depth + 1)
        elif isinstance(expr, ast.Name):
            owner = self.owner_of_name(f, expr.id) if f is not None else None
            vals = []
            if owner is not None:
                vals = self.assigned(owner).get(expr.id, [])
            else:
                r = self.p.resolve_in_module(m, expr.id)
                if isinstance(r, tuple):
                    for st in r[1].tree.body:
                        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2]
                                                              for t in st.targets):
                            vals.append(st.value)
            for v in vals:
                if isinstance(v, ast.Dict):
                    out |= self._dict_values(m, f, v, depth + 1)
        return out


def all_calls(p):
    """(module, enclosing Func or None, Call) for every call in the project."""
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                yield m, p.enclosing(m, n), n


def where(m, f, node=None):
    """Stable construct name: module path + enclosing function qualname."""
    if f is None:
        return m.name + '.<module>'
    return f.key.replace('.<locals>', '')


def const(node):
    return node.value if isinstance(node, ast.Constant) else None


def is_const(node, typ=None):
    return isinstance(node, ast.Constant) and (typ is None or isinstance(node.value, typ))


def kwarg(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def bind_args(call, params, skip_self):
    """param name -> expression for a call with these positional parameter names; None if *args/**kw."""
    ps = params[1:] if skip_self else params
    out = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return out
        if i < len(ps):
            out[ps[i]] = a
    for k in call.keywords:
        if k.arg is not None:
            out[k.arg] = k.value
    return out


def default_of(func_node, name):
    a = func_node.args
    pos = a.posonlyargs + a.args
    n = len(pos) - len(a.defaults)
    for i, x in enumerate(pos):
        if x.arg == name:
            return a.defaults[i - n] if i >= n else None
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def func_path(f):
    return f.module.path


__all__ = ['Scopes', 'all_calls', 'where', 'const', 'is_const', 'kwarg', 'bind_args', 'default_of', 'func_path',
           'BUILTINS', 'Func', 'Class', 'Module']
