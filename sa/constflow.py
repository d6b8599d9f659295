"""Which constants can reach an expression: through locals, parameters (defaults and call sites), attributes."""
import ast

from .project import Class, Func, own_nodes
from .util import Scopes, bind_args, default_of

UNKNOWN = '?unknown'


class ConstFlow:
    def __init__(self, p):
        self.p = p
        self.sc = Scopes(p)
        self._calls = None
        self._attrs = None

    # ---- call index: Func -> [(module, caller, call, skip_self)]
    def calls_of(self, func):
        if self._calls is None:
            self._calls = {}
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if not isinstance(n, ast.Call):
                        continue
                    f = self.p.enclosing(m, n)
                    for t, skip in self.targets(m, f, n):
                        self._calls.setdefault(t, []).append((m, f, n, skip))
        return self._calls.get(func, [])

    def targets(self, m, f, call):
        """[(Func, bound_receiver)] for calls whose callee the scopes can name."""
        out = []
        fn = call.func
        for t in self.sc.resolve(m, f, fn):
            if isinstance(t, Func):
                bound = False
                if t.cls is not None and not t.is_static:
                    # Class.method(self, ...) keeps self explicit
                    bound = False
                out.append((t, bound))
            elif isinstance(t, Class):
                init = t.find_method('__init__')
                if init is not None:
                    out.append((init, True))
        if isinstance(fn, ast.Attribute):
            recv = fn.value
            cls = f.cls if f is not None else None
            g = f
            while cls is None and g is not None:
                cls, g = g.cls, g.parent
            if cls is not None:
                if isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == 'super':
                    seen = set()
                    for sub in cls.all_subs():
                        mro = sub.mro()
                        if cls in mro:
                            for c in mro[mro.index(cls) + 1:]:
                                t = c.methods.get(fn.attr)
                                if t is not None:
                                    if t not in seen:
                                        seen.add(t)
                                        out.append((t, True))
                                    break
                elif isinstance(recv, ast.Name) and recv.id == 'self':
                    seen = set()
                    for sub in cls.all_subs():
                        t = sub.find_method(fn.attr)
                        if t is not None and t not in seen:
                            seen.add(t)
                            out.append((t, not t.is_static))
        return out

    def attr_assignments(self, name):
        if self._attrs is None:
            self._attrs = {}
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    ts = []
                    if isinstance(n, ast.Assign):
                        ts = [(t, n.value) for t in n.targets]
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        ts = [(n.target, n.value)]
                    for t, v in ts:
                        if isinstance(t, ast.Attribute):
                            self._attrs.setdefault(t.attr, []).append((m, self.p.enclosing(m, n), t, v))
        return self._attrs.get(name, [])

    def values(self, m, f, expr, seen=None):
        """Set of constants; UNKNOWN for anything the rules do not follow."""
        seen = seen if seen is not None else set()
        key = (m.name, id(expr))
        if key in seen:
            return set()
        seen.add(key)
        if expr is None:
            return set()
        if isinstance(expr, ast.Constant):
            return {expr.value}
        if isinstance(expr, ast.IfExp):
            return self.values(m, f, expr.body, seen) | self.values(m, f, expr.orelse, seen)
        if isinstance(expr, ast.BoolOp):
            out = set()
            for i, v in enumerate(expr.values):
                vs = self.values(m, f, v, seen)
                if i + 1 < len(expr.values):
                    keep_true = isinstance(expr.op, ast.Or)
                    vs = {x for x in vs if x is UNKNOWN or bool(x) == keep_true}
                out |= vs
            return out
        if isinstance(expr, ast.JoinedStr):
            if all(isinstance(v, ast.Constant) for v in expr.values):
                return {''.join(v.value for v in expr.values)}
            return {UNKNOWN}
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
            a, b = self.values(m, f, expr.left, seen), self.values(m, f, expr.right, seen)
            if a and b and all(isinstance(x, str) and x is not UNKNOWN for x in a | b):
                return {x + y for x in a for y in b}
            return {UNKNOWN}
        if isinstance(expr, ast.Name):
            owner = self.sc.owner_of_name(f, expr.id) if f is not None else None
            if owner is not None:
                out = set()
                vals = self.sc.assigned(owner).get(expr.id, [])
                for v in vals:
                    out |= {UNKNOWN} if v is None else self.values(m, owner, v, seen)
                a = owner.node.args
                if expr.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                    out |= self.param_values(owner, expr.id, seen)
                elif not vals:
                    out.add(UNKNOWN)
                return out
            r = self.p.resolve_in_module(m, expr.id)
            if isinstance(r, tuple) and r[0] == 'global':
                out = set()
                for st in ast.walk(r[1].tree):
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2]
                                                          for t in st.targets):
                        out |= self.values(r[1], None, st.value, seen)
                return out or {UNKNOWN}
            return {UNKNOWN}
        if isinstance(expr, ast.Attribute):
            out = set()
            own = None
            if isinstance(expr.value, ast.Name) and expr.value.id == 'self' and f is not None:
                g = f
                while g is not None and own is None:
                    own, g = g.cls, g.parent
            if own is None:
                return {UNKNOWN}
            fam = set(own.mro())
            for s in own.all_subs():
                fam |= set(s.mro())
            for mm, ff, t, v in self.attr_assignments(expr.attr):
                g, c = ff, None
                while g is not None and c is None:
                    c, g = g.cls, g.parent
                if c in fam:
                    out |= self.values(mm, ff, v, seen)
            for c in fam:
                if expr.attr in c.class_attrs:
                    out |= self.values(c.module, None, c.class_attrs[expr.attr], seen)
            return out or {UNKNOWN}
        return {UNKNOWN}

    def param_values(self, func, name, seen=None):
        seen = seen if seen is not None else set()
        key = (func, name)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        d = default_of(func.node, name)
        if d is not None:
            out |= self.values(func.module, func.parent, d, seen)
        calls = self.calls_of(func)
        for m, f, call, skip in calls:
            b = bind_args(call, func.params, skip)
            if name in b:
                out |= self.values(m, f, b[name], seen)
            elif any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
                pass      # forwarded by the caller of the caller: the user's choice
        if d is None and not calls:
            out.add(UNKNOWN)
        return out


__all__ = ['ConstFlow', 'UNKNOWN', 'own_nodes']
