"""Whole-program, flow-insensitive, context-insensitive inclusion analysis of value types.

Abstract values (tuples):
  ('I', qual)  instance of exactly that class        ('i', qual)  instance of that class or a subclass
  ('C', qual)  class object                          ('f', key)   plain function
  ('b', key, value) bound method                     ('lam', id)  lambda
  ('o', kind, site) container/generator/tuple allocated at a site (kind: list set dict tuple gen)
  ('k', name)  primitive (str int bool float none bytes)
  ('m', name)  module                                ('x', dotted) external object
  ('?',)       anything
Every class may be instantiated by users, so a method's `self` is ('i', defining class); other parameters
receive what the calls in the program pass.
"""
import ast

from .project import Class, Func, Module, local_bindings
from .util import BUILTINS, Scopes

ANY = ('?',)
STR, INT, BOOL, NONE, FLOAT, BYTES = (('k', n) for n in ('str', 'int', 'bool', 'none', 'float', 'bytes'))
STR_LIST_M = {'split', 'rsplit', 'splitlines'}
STR_BOOL_M = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower', 'isspace', 'isnumeric', 'isalnum',
              'isdecimal', 'istitle', 'isidentifier', 'isprintable', 'isascii'}
STR_INT_M = {'find', 'rfind', 'index', 'rindex', 'count'}
CONTAINERS = {'list', 'set', 'dict', 'tuple', 'gen'}


PYDIR = {'str': dir(str), 'int': dir(int), 'bool': dir(bool), 'none': dir(None), 'float': dir(float),
         'bytes': dir(bytes), 'list': dir(list) + ['appendleft', 'popleft', 'extendleft', 'rotate', 'maxlen'],
         'set': dir(set), 'dict': dir(dict) + ['most_common', 'elements', 'subtract', 'move_to_end', 'default_factory'],
         'tuple': dir(tuple), 'gen': dir((x for x in ())) + dir({}.items()) + dir(range(0))}


class Types:
    MAX_ROUNDS = 40

    def __init__(self, p):
        self.p = p
        self.scopes = Scopes(p)
        self.vars = {}       # (func key | module name, name) -> set
        self.attrs = {}      # (class qual, attr) -> set
        self.content = {}    # site -> set (list/set/gen elements, dict values)
        self.keys = {}       # site -> set (dict keys)
        self.elems = {}      # (site, i) -> set   (tuples)
        self.tuplen = {}
        self.returns = {}    # func key -> set
        self.defaults_done = set()
        self.calls = {}      # call node -> set of callee keys (functions and constructors)
        self.changed = True
        self.lambdas = {}
        self.fscope = {}
        self._sub = {}
        self.run()

    # ------------------------------------------------------------------ driver
    def run(self):
        for f in self.p.functions.values():
            a = f.node.args
            if f.cls is not None and not f.is_static and f.params:
                v = ('C', f.cls.qual) if f.is_classmethod or f.name == '__new__' else ('i', f.cls.qual)
                self.add(self.vars, (f.key, f.params[0]), {v})
            if a.vararg:
                self.add(self.vars, (f.key, a.vararg.arg), {('o', 'list', ('vararg', f.key))})
            if a.kwarg:
                self.add(self.vars, (f.key, a.kwarg.arg), {('o', 'dict', ('kwarg', f.key))})
                self.add(self.keys, ('kwarg', f.key), {STR})
        rounds = 0
        while self.changed and rounds < self.MAX_ROUNDS:
            self.changed = False
            rounds += 1
            for m in self.p.modules.values():
                self.block(m, None, m.tree.body)
                for c in m.classes:
                    for name, expr in c.class_attrs.items():
                        self.add(self.attrs, (c.qual, name), self.ev(m, None, expr))
            for f in self.p.functions.values():
                self.fn(f)
        self.rounds = rounds

    def add(self, table, key, vals):
        if not vals:
            return
        cur = table.get(key)
        if cur is None:
            table[key] = set(vals)
            self.changed = True
        elif not vals <= cur:
            cur |= vals
            self.changed = True

    def fn(self, f):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            self.add(self.vars, (f.key, x.arg), self.ev(f.module, f.parent, d))
        self.block(f.module, f, f.node.body)

    def block(self, m, f, body):
        for st in body:
            self.stmt(m, f, st)

    def stmt(self, m, f, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Break,
                           ast.Continue, ast.Global, ast.Nonlocal)):
            if isinstance(st, ast.FunctionDef):
                for d in st.decorator_list:
                    self.ev(m, f, d)
                key = self.p.func_of_node.get(st)
                if f is not None and key is not None:
                    self.add(self.vars, (f.key, st.name), {('f', key.key)})
            return
        if isinstance(st, ast.Assign):
            v = self.ev(m, f, st.value)
            for t in st.targets:
                self.assign(m, f, t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(m, f, st.target, self.ev(m, f, st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(m, f, st.value)
            t = _load(st.target)
            cur = self.ev(m, f, t)
            if isinstance(st.op, (ast.Add, ast.BitOr)):
                for c in cur:
                    if c[0] == 'o':
                        self.extend(c, v)
            self.assign(m, f, st.target, self.binop(st.op, cur, v, st), None)
        elif isinstance(st, ast.Return):
            if st.value is not None and f is not None:
                self.add(self.returns, f.key, self.ev(m, f, st.value))
            elif f is not None:
                self.add(self.returns, f.key, {NONE})
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(m, f, st.iter)
            self.assign(m, f, st.target, self.iter(it, st.iter), None)
            self.block(m, f, st.body)
            self.block(m, f, st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(m, f, i.context_expr)
                if i.optional_vars is not None:
                    self.assign(m, f, i.optional_vars, v, None)
            self.block(m, f, st.body)
        elif isinstance(st, ast.Try):
            self.block(m, f, st.body)
            for h in st.handlers:
                if h.type is not None:
                    self.ev(m, f, h.type)
                if h.name:
                    self.put(m, f, h.name, {('x', 'builtins.Exception')})
                self.block(m, f, h.body)
            self.block(m, f, st.orelse)
            self.block(m, f, st.finalbody)
        elif isinstance(st, (ast.If, ast.While)):
            self.ev(m, f, st.test)
            self.block(m, f, st.body)
            self.block(m, f, st.orelse)
        else:
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr):
                    self.ev(m, f, ch)
                elif isinstance(ch, ast.stmt):
                    self.stmt(m, f, ch)

    # ------------------------------------------------------------------ variables
    def scope_of(self, m, f, name):
        g = f
        while g is not None:
            if name in self.scopes.locals_of(g):
                return g.key
            g = g.parent
        return m.name

    def put(self, m, f, name, vals):
        if f is None:
            key = (m.name, name)
        else:
            k = self.fscope.get((f.key, name))
            if k is None:
                k = self.fscope[(f.key, name)] = self.scope_of(m, f, name)
            key = (k, name)
        self.add(self.vars, key, vals)

    def assign(self, m, f, t, vals, expr):
        if isinstance(t, ast.Name):
            self.put(m, f, t.id, vals)
        elif isinstance(t, ast.Attribute):
            recv = self.ev(m, f, t.value)
            for r in recv:
                self.setattr(r, t.attr, vals, t)
        elif isinstance(t, ast.Subscript):
            recv = self.ev(m, f, t.value)
            k = self.ev(m, f, t.slice) if not isinstance(t.slice, ast.Slice) else set()
            for r in recv:
                if r[0] == 'o':
                    if isinstance(t.slice, ast.Slice):
                        self.add(self.content, r[2], self.iter(vals, t))
                    else:
                        self.add(self.content, r[2], vals)
                        if r[1] == 'dict':
                            self.add(self.keys, r[2], k)
                else:
                    self.dunder(r, '__setitem__', [k, vals], t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.add(self.content, ('star', id(e)), self.iter(vals, t))
                    self.assign(m, f, e.value, {('o', 'list', ('star', id(e)))}, None)
                    continue
                out = set()
                for v in vals:
                    if v[0] == 'o' and v[1] == 'tuple' and not star and v[2] in self.tuplen:
                        if self.tuplen[v[2]] == n:
                            out |= self.elems.get((v[2], i), set())
                    else:
                        out |= self.iter({v}, t)
                self.assign(m, f, e, out, None)
        elif isinstance(t, ast.Starred):
            self.assign(m, f, t.value, vals, expr)

    # ------------------------------------------------------------------ attributes
    def family(self, v):
        c = self.p.classes.get(v[1])
        if c is None:
            return []
        key = (v[0], v[1])
        if key not in self._sub:
            out = list(c.mro())
            if v[0] == 'i':
                for s in c.all_subs():
                    if s not in out:
                        out.append(s)
            self._sub[key] = out
        return self._sub[key]

    def lookups(self, v, name):
        """Class-level members an attribute of an instance may denote: set of (kind, obj, class)."""
        c = self.p.classes.get(v[1])
        out = []
        if c is None:
            return out
        hit = c.lookup(name)
        if hit:
            out.append(hit)
        if v[0] == 'i':
            for s in c.all_subs():
                if s is c:
                    continue
                if name in s.methods or name in s.getters or name in s.setters or name in s.class_attrs:
                    h = s.lookup(name)
                    if h not in out:
                        out.append(h)
        return out

    def getattr(self, v, name, node):
        k = v[0]
        if k in ('I', 'i'):
            out = set()
            for kind, obj, c in self.lookups(v, name):
                if kind == 'prop':
                    g = obj[0] or c.find_getter(name)
                    if g is not None:
                        out |= self.invoke(g, [{v if v[0] == 'I' else ('i', c.qual) if self._below(c, v[1]) else v}],
                                           {}, node)
                elif kind == 'method':
                    if obj.is_static:
                        out.add(('f', obj.key))
                    else:
                        out.add(('b', obj.key, v))
                else:
                    out |= self.attrs.get((c.qual, name), set())
            for c in self.family(v):
                out |= self.attrs.get((c.qual, name), set())
            if not out:
                c = self.p.classes.get(v[1])
                if c is not None:
                    ext = c.external_bases()
                    if any(str(b) == 'list' for b in ext):
                        out.add(('bm', ('o', 'list', ('inst', v[1])), name))
                    elif any(str(b).endswith(('Mapping', 'Sequence', 'Set')) for b in ext):
                        out.add(('mx', v, name))
                    elif ext:
                        out.add(ANY)
                    if name == '__class__':
                        out.add(('C', v[1]))
            return out
        if k == 'C':
            c = self.p.classes[v[1]]
            hit = c.lookup(name)
            if hit and hit[0] == 'method':
                return {('b', hit[1].key, v)} if hit[1].is_classmethod else {('f', hit[1].key)}
            out = set()
            for b in c.mro():
                out |= self.attrs.get((b.qual, name), set())
            if name == '__name__':
                out.add(STR)
            return out
        if k == 'm':
            m = self.p.modules[v[1]]
            return self.module_attr(m, name)
        if k == 'x':
            return {('x', v[1] + '.' + name)}
        if k == 'ns':
            return self.wrap(self.p.resolve_dotted(v[1] + '.' + name))
        if k in ('o', 'k'):
            return {('bm', v, name)} if name in PYDIR[v[1]] else set()
        return {ANY} if k == '?' else set()

    def _below(self, c, qual):
        base = self.p.classes.get(qual)
        return base is not None and c is not base and c.is_sub(base)

    def setattr(self, r, name, vals, node):
        if r[0] in ('I', 'i'):
            done = False
            for kind, obj, c in self.lookups(r, name):
                if kind == 'prop' and obj[1] is not None:
                    self.invoke(obj[1], [{r}, vals], {}, node)
                    done = True
            if not done:
                self.attrs.setdefault((r[1], name), set())
                self.add(self.attrs, (r[1], name), vals)
        elif r[0] == 'C':
            self.attrs.setdefault((r[1], name), set())
            self.add(self.attrs, (r[1], name), vals)
        elif r[0] == 'm':
            self.add(self.vars, (r[1], name), vals)

    def module_attr(self, m, name):
        out = set(self.vars.get((m.name, name), ()))
        r = self.p.resolve_in_module(m, name)
        if r is not None and not isinstance(r, tuple):
            out |= self.wrap(r)
        elif isinstance(r, tuple):
            out |= self.vars.get((r[1].name, r[2]), set())
        return out

    def wrap(self, r):
        if isinstance(r, Class):
            return {('C', r.qual)}
        if isinstance(r, Func):
            return {('f', r.key)}
        if isinstance(r, Module):
            return {('m', r.name)}
        if isinstance(r, tuple):
            return set(self.vars.get((r[1].name, r[2]), ()))
        if isinstance(r, str):
            from .project import Namespace
            if isinstance(r, Namespace):
                return {('ns', str(r))}
            return {('x', str(r))}
        return set()

    # ------------------------------------------------------------------ expressions
    def ev(self, m, f, e):
        r = getattr(self, 'ev_' + type(e).__name__, None)
        if r is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev(m, f, ch)
            return {ANY}
        return r(m, f, e)

    def ev_Constant(self, m, f, e):
        v = e.value
        return {NONE if v is None else BOOL if isinstance(v, bool) else STR if isinstance(v, str) else
                INT if isinstance(v, int) else BYTES if isinstance(v, bytes) else FLOAT}

    def ev_Name(self, m, f, e):
        g = f
        while g is not None:
            if e.id in self.scopes.locals_of(g):
                out = set(self.vars.get((g.key, e.id), ()))
                imp = self.scopes.local_imports(g)
                if e.id in imp and imp[e.id][0] == 'import':
                    out |= self.wrap(self.p.resolve_dotted(imp[e.id][1]))
                if e.id in g._nested:
                    n = g._nested[e.id]
                    out |= self.wrap(n)
                return out
            g = g.parent
        out = self.module_attr(m, e.id)
        if not out and e.id in BUILTINS:
            return {('x', 'builtins.' + e.id)}
        return out

    def ev_Attribute(self, m, f, e):
        out = set()
        for v in self.ev(m, f, e.value):
            out |= self.getattr(v, e.attr, e)
        return out

    def ev_JoinedStr(self, m, f, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                for x in self.ev(m, f, v.value):
                    self.dunder(x, '__str__', [], e)
        return {STR}

    def ev_IfExp(self, m, f, e):
        self.ev(m, f, e.test)
        return self.ev(m, f, e.body) | self.ev(m, f, e.orelse)

    def ev_BoolOp(self, m, f, e):
        out = set()
        for v in e.values:
            out |= self.ev(m, f, v)
        return out

    def ev_UnaryOp(self, m, f, e):
        v = self.ev(m, f, e.operand)
        return {BOOL} if isinstance(e.op, ast.Not) else v

    def ev_Compare(self, m, f, e):
        vals = [self.ev(m, f, x) for x in [e.left] + e.comparators]
        for op, a, b in zip(e.ops, vals, vals[1:]):
            name = {ast.Lt: '__lt__', ast.Gt: '__lt__', ast.LtE: '__lt__', ast.GtE: '__lt__', ast.Eq: '__eq__',
                    ast.NotEq: '__eq__'}.get(type(op))
            if name:
                for x in a:
                    self.dunder(x, name, [b], e)
            elif isinstance(op, (ast.In, ast.NotIn)):
                for x in b:
                    self.dunder(x, '__contains__', [a], e)
        return {BOOL}

    def ev_BinOp(self, m, f, e):
        return self.binop(e.op, self.ev(m, f, e.left), self.ev(m, f, e.right), e)

    def binop(self, op, a, b, node):
        out = set()
        if isinstance(op, ast.Mod) and STR in a:
            out.add(STR)
        for x in a:
            if x[0] == 'o' and isinstance(op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd, ast.Mult, ast.BitXor)):
                site = ('bin', id(node))
                self.add(self.content, site, self.content_of(x))
                for y in b:
                    if y[0] == 'o' and isinstance(op, (ast.Add, ast.BitOr, ast.BitXor)):
                        self.add(self.content, site, self.content_of(y))
                out.add(('o', 'list' if x[1] == 'tuple' else x[1], site))
            elif x[0] == 'k' and x != NONE:
                out.add(x if not (x in (INT, BOOL) and (FLOAT in b or isinstance(op, ast.Div))) else FLOAT)
                if x == BOOL:
                    out.add(INT)
            elif x == ANY:
                out.add(ANY)
            elif x[0] in ('I', 'i'):
                out |= self.dunder(x, {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(
                    type(op), '__or__'), [b], node)
        return out

    def display(self, m, f, e, kind):
        site = ('d', id(e))
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                self.add(self.content, site, self.iter(self.ev(m, f, x.value), x))
            else:
                v = self.ev(m, f, x)
                self.add(self.content, site, v)
                if kind == 'tuple':
                    self.add(self.elems, (site, i), v)
        if kind == 'tuple' and not any(isinstance(x, ast.Starred) for x in e.elts):
            self.tuplen[site] = len(e.elts)
        return {('o', kind, site)}

    def ev_Tuple(self, m, f, e):
        return self.display(m, f, e, 'tuple')

    def ev_List(self, m, f, e):
        return self.display(m, f, e, 'list')

    def ev_Set(self, m, f, e):
        return self.display(m, f, e, 'set')

    def ev_Dict(self, m, f, e):
        site = ('d', id(e))
        for k, v in zip(e.keys, e.values):
            if k is None:
                for x in self.ev(m, f, v):
                    if x[0] == 'o':
                        self.add(self.content, site, self.content_of(x))
                        self.add(self.keys, site, self.keys.get(x[2], set()))
                continue
            self.add(self.keys, site, self.ev(m, f, k))
            self.add(self.content, site, self.ev(m, f, v))
        return {('o', 'dict', site)}

    def comp(self, m, f, e, kind):
        for g in e.generators:
            self.assign(m, f, g.target, self.iter(self.ev(m, f, g.iter), g.iter), None)
            for i in g.ifs:
                self.ev(m, f, i)
        site = ('d', id(e))
        if kind == 'dict':
            self.add(self.keys, site, self.ev(m, f, e.key))
            self.add(self.content, site, self.ev(m, f, e.value))
        else:
            self.add(self.content, site, self.ev(m, f, e.elt))
        return {('o', kind, site)}

    def ev_ListComp(self, m, f, e):
        return self.comp(m, f, e, 'list')

    def ev_SetComp(self, m, f, e):
        return self.comp(m, f, e, 'set')

    def ev_GeneratorExp(self, m, f, e):
        return self.comp(m, f, e, 'gen')

    def ev_DictComp(self, m, f, e):
        return self.comp(m, f, e, 'dict')

    def ev_NamedExpr(self, m, f, e):
        v = self.ev(m, f, e.value)
        self.assign(m, f, e.target, v, e.value)
        return v

    def ev_Starred(self, m, f, e):
        return self.ev(m, f, e.value)

    def ev_Await(self, m, f, e):
        return self.ev(m, f, e.value)

    def ev_Lambda(self, m, f, e):
        self.lambdas[id(e)] = (m, f, e)
        self.ev(m, f, e.body)
        return {('lam', id(e))}

    def ev_Yield(self, m, f, e):
        if f is not None:
            site = ('gen', f.key)
            if e.value is not None:
                self.add(self.content, site, self.ev(m, f, e.value))
            self.add(self.returns, f.key, {('o', 'gen', site)})
        return {NONE}

    def ev_YieldFrom(self, m, f, e):
        if f is not None:
            site = ('gen', f.key)
            self.add(self.content, site, self.iter(self.ev(m, f, e.value), e))
            self.add(self.returns, f.key, {('o', 'gen', site)})
        return {NONE}

    def ev_Slice(self, m, f, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(m, f, x)
        return set()

    def ev_Subscript(self, m, f, e):
        recv = self.ev(m, f, e.value)
        k = self.ev(m, f, e.slice)
        out = set()
        for r in recv:
            if r[0] == 'o':
                if isinstance(e.slice, ast.Slice):
                    if r[1] == 'tuple':
                        site = ('sl', id(e))
                        self.add(self.content, site, self.content_of(r))
                        out.add(('o', 'list', site))
                    else:
                        site = ('sl', id(e))
                        self.add(self.content, site, self.content_of(r))
                        out.add(('o', r[1], site))
                elif r[1] == 'tuple' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                        r[2] in self.tuplen:
                    i = e.slice.value
                    n = self.tuplen[r[2]]
                    i = i + n if i < 0 else i
                    out |= self.elems.get((r[2], i), set())
                else:
                    out |= self.content_of(r)
            elif r in (STR, BYTES):
                out.add(r)
            elif r[0] in ('I', 'i'):
                if isinstance(e.slice, ast.Slice):
                    k = {('x', 'builtins.slice')}
                out |= self.dunder(r, '__getitem__', [k], e)
                if self.is_list(r):
                    out |= self.content.get(('inst', r[1]), set())
            elif r == ANY or r[0] == 'x':
                out.add(ANY)
        return out

    # ------------------------------------------------------------------ containers
    def is_list(self, r):
        c = self.p.classes.get(r[1])
        return c is not None and any(str(b) == 'list' for b in c.external_bases())

    def content_of(self, v):
        return self.content.get(v[2], set())

    def extend(self, c, vals):
        self.add(self.content, c[2], self.iter(vals, None))

    def iter(self, vals, node):
        out = set()
        for v in vals:
            if v[0] == 'o':
                out |= self.keys.get(v[2], set()) if v[1] == 'dict' else self.content_of(v)
            elif v == STR:
                out.add(STR)
            elif v[0] in ('I', 'i'):
                if self.is_list(v):
                    out |= self.content.get(('inst', v[1]), set())
                r = self.dunder(v, '__iter__', [], node)
                out |= self.iter({x for x in r if x != v}, node)
                if not r and not self.is_list(v):
                    for kind, obj, c in self.lookups(v, '__getitem__'):
                        out |= self.invoke(obj, [{v}, {INT}], {}, node)
            elif v == ANY or v[0] == 'x':
                out.add(ANY)
            elif v[0] == 'gob':
                out |= self.iter({v[1]}, node)
        return out

    def dunder(self, v, name, args, node):
        out = set()
        if v[0] in ('I', 'i'):
            for kind, obj, c in self.lookups(v, name):
                if kind == 'method':
                    out |= self.invoke(obj, [{v}] + args, {}, node)
        return out

    # ------------------------------------------------------------------ calls
    def invoke(self, fn, args, kwargs, node, star=None, dstar=None):
        """Bind argument sets to the parameters of a function; its return set."""
        if node is not None and isinstance(node, ast.Call):
            self.calls.setdefault(node, set()).add(fn.key)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            if n == fn.params[0] and fn.cls is not None and not fn.is_static:
                continue
            self.add(self.vars, (fn.key, n), v)
        if len(args) > len(names) and a.vararg:
            for v in args[len(names):]:
                self.add(self.content, ('vararg', fn.key), v)
        kwo = {x.arg for x in a.kwonlyargs}
        for n, v in kwargs.items():
            if n in names or n in kwo:
                self.add(self.vars, (fn.key, n), v)
            elif a.kwarg:
                self.add(self.content, ('kwarg', fn.key), v)
        if star:
            el = self.iter(star, node)
            for n in names[len(args):]:
                self.add(self.vars, (fn.key, n), el)
            if a.vararg:
                self.add(self.content, ('vararg', fn.key), el)
        if dstar:
            el = set()
            for d in dstar:
                if d[0] == 'o':
                    el |= self.content_of(d)
            for n in names[len(args):]:
                if n not in kwargs:
                    self.add(self.vars, (fn.key, n), el)
            if a.kwarg:
                self.add(self.content, ('kwarg', fn.key), el)
        return self.returns.get(fn.key, set())

    def construct(self, qual, args, kwargs, node, star=None, dstar=None):
        c = self.p.classes[qual]
        init = c.find_method('__init__')
        if isinstance(node, ast.Call):
            self.calls.setdefault(node, set()).add('class:' + qual)
        if init is not None:
            self.invoke(init, [{('I', qual)}] + args, kwargs, None, star, dstar)
        elif any(str(b) == 'list' for b in c.external_bases()) and args:
            self.add(self.content, ('inst', qual), self.iter(args[0], node))
        return {('I', qual)}

    def ev_Call(self, m, f, e):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super' and f is not None:
            return self.super_call(m, f, e)
        fv = self.ev(m, f, e.func)
        args, star = [], set()
        for a in e.args:
            if isinstance(a, ast.Starred):
                star |= self.ev(m, f, a.value)
            elif star:
                self.ev(m, f, a)
            else:
                args.append(self.ev(m, f, a))
        kwargs, dstar = {}, set()
        for k in e.keywords:
            v = self.ev(m, f, k.value)
            if k.arg is None:
                dstar |= v
            else:
                kwargs[k.arg] = v
        out = set()
        for v in fv:
            out |= self.call(v, args, kwargs, e, star, dstar, m, f)
        return out

    def super_call(self, m, f, e):
        name = e.func.attr
        args = [self.ev(m, f, a) for a in e.args if not isinstance(a, ast.Starred)]
        star = set().union(*[self.ev(m, f, a.value) for a in e.args if isinstance(a, ast.Starred)] or [set()])
        kwargs = {k.arg: self.ev(m, f, k.value) for k in e.keywords if k.arg}
        dstar = set().union(*[self.ev(m, f, k.value) for k in e.keywords if not k.arg] or [set()])
        g = f
        while g is not None and g.cls is None:
            g = g.parent
        if g is None:
            return {ANY}
        out = set()
        for c in [g.cls]:
            for b in c.mro()[1:]:
                if name in b.methods:
                    out |= self.invoke(b.methods[name], [{('i', g.cls.qual)}] + args, kwargs, e, star, dstar)
                    return out
            if self.is_list(('i', c.qual)):
                site = ('o', 'list', ('inst', c.qual))
                if name == '__init__' and args:
                    self.add(self.content, site[2], self.iter(args[0], e))
                    return {NONE}
                return self.call(('bm', site, name), args, kwargs, e, star, dstar, m, f)
        return {ANY}

    def call(self, v, args, kwargs, e, star, dstar, m, f):
        k = v[0]
        if k == 'f':
            return self.invoke(self.p.functions[v[1]], args, kwargs, e, star, dstar)
        if k == 'b':
            fn = self.p.functions[v[1]]
            return self.invoke(fn, [{v[2]}] + args, kwargs, e, star, dstar)
        if k == 'C':
            return self.construct(v[1], args, kwargs, e, star, dstar)
        if k == 'lam':
            lm, lf, lam = self.lambdas[v[1]]
            names = [x.arg for x in lam.args.args]
            for n, a in zip(names, args):
                # lambda parameters live in the enclosing scope under a private name
                self.add(self.vars, (lf.key if lf else lm.name, n), a)
            return self.ev(lm, lf, lam.body)
        if k == 'bm':
            return self.container_method(v[1], v[2], args, kwargs, e, m, f)
        if k == 'mx':
            return self.mapping_mixin(v[1], v[2], args, e)
        if k == 'x':
            return self.external(v[1], args, kwargs, e, m, f, star)
        if k in ('I', 'i'):
            out = set()
            for kind, obj, c in self.lookups(v, '__call__'):
                if kind == 'method':
                    out |= self.invoke(obj, [{v}] + args, kwargs, e, star, dstar)
            return out
        return {ANY} if k == '?' else set()

    def callback(self, fv, args, e, m, f):
        out = set()
        for v in fv:
            out |= self.call(v, args, {}, e if not isinstance(e, ast.Call) else None, set(), set(), m, f)
        return out

    def mapping_mixin(self, v, name, args, e):
        if name in ('get', 'pop', 'setdefault'):
            out = self.dunder(v, '__getitem__', args[:1], e)
            if len(args) > 1:
                out = out | args[1]
            if name == 'setdefault':
                self.dunder(v, '__setitem__', args[:2], e)
            return out
        if name in ('keys', 'items', 'values'):
            keys = self.iter({v}, e)
            vals = self.dunder(v, '__getitem__', [keys], e)
            site = ('mx', id(e), name)
            if name == 'keys':
                self.add(self.content, site, keys)
            elif name == 'values':
                self.add(self.content, site, vals)
            else:
                t = ('mxt', id(e))
                self.tuplen[t] = 2
                self.add(self.elems, (t, 0), keys)
                self.add(self.elems, (t, 1), vals)
                self.add(self.content, t, keys | vals)
                self.add(self.content, site, {('o', 'tuple', t)})
            return {('o', 'gen', site)}
        if name == 'update':
            return {NONE}
        return {ANY}

    def container_method(self, v, name, args, kwargs, e, m, f):
        if v[0] == 'k':
            if v == STR or v == BYTES:
                if name in STR_LIST_M:
                    self.add(self.content, ('split', id(e)), {v})
                    return {('o', 'list', ('split', id(e)))}
                if name in STR_BOOL_M:
                    return {BOOL}
                if name in STR_INT_M:
                    return {INT}
                if name in ('partition', 'rpartition'):
                    t = ('part', id(e))
                    self.tuplen[t] = 3
                    for i in range(3):
                        self.add(self.elems, (t, i), {v})
                    self.add(self.content, t, {v})
                    return {('o', 'tuple', t)}
                if name == 'join' and args:
                    self.iter(args[0], e)
                if name == 'format':
                    for a in args:
                        for x in a:
                            self.dunder(x, '__str__', [], e)
                return {BYTES} if name == 'encode' else {STR}
            return {ANY}
        kind, site = v[1], v[2]
        if name in ('append', 'add', 'appendleft'):
            if args:
                self.add(self.content, site, args[0])
            return {NONE}
        if name == 'insert':
            if len(args) > 1:
                self.add(self.content, site, args[1])
            return {NONE}
        if name in ('extend', 'extendleft'):
            if args:
                self.add(self.content, site, self.iter(args[0], e))
            return {NONE}
        if name == 'update':
            for a in args:
                for x in a:
                    if x[0] == 'o' and x[1] == 'dict':
                        self.add(self.content, site, self.content_of(x))
                        self.add(self.keys, site, self.keys.get(x[2], set()))
                    elif kind == 'set':
                        self.add(self.content, site, self.iter({x}, e))
            for n, x in kwargs.items():
                self.add(self.content, site, x)
            return {NONE}
        if name in ('pop', 'popleft', 'get'):
            out = set(self.content_of(v))
            if name == 'get':
                out |= args[1] if len(args) > 1 else {NONE}
            elif len(args) > 1:
                out |= args[1]
            return out
        if name == 'setdefault':
            if len(args) > 1:
                self.add(self.content, site, args[1])
                self.add(self.keys, site, args[0])
            return set(self.content_of(v)) | (args[1] if len(args) > 1 else {NONE})
        if name == 'popitem' or name == 'items':
            t = ('it', site)
            self.tuplen[t] = 2
            self.add(self.elems, (t, 0), self.keys.get(site, set()))
            self.add(self.elems, (t, 1), self.content_of(v))
            self.add(self.content, t, self.keys.get(site, set()) | self.content_of(v))
            if name == 'popitem':
                return {('o', 'tuple', t)}
            self.add(self.content, ('its', site), {('o', 'tuple', t)})
            return {('o', 'gen', ('its', site))}
        if name == 'keys':
            self.add(self.content, ('ks', site), self.keys.get(site, set()))
            return {('o', 'gen', ('ks', site))}
        if name == 'values':
            self.add(self.content, ('vs', site), self.content_of(v))
            return {('o', 'gen', ('vs', site))}
        if name in ('copy', 'union', 'difference', 'intersection', 'symmetric_difference', 'most_common'):
            s2 = ('cp', id(e))
            self.add(self.content, s2, self.content_of(v))
            self.add(self.keys, s2, self.keys.get(site, set()))
            for a in args:
                self.add(self.content, s2, self.iter(a, e))
            return {('o', kind, s2)}
        if name in ('index', 'count'):
            return {INT}
        if name == 'sort':
            for kf in [kwargs.get('key', set())]:
                self.callback(kf, [self.content_of(v)], e, m, f)
            for x in list(self.content_of(v)):
                self.dunder(x, '__lt__', [self.content_of(v)], e)
            return {NONE}
        if name in ('isdisjoint', 'issubset', 'issuperset'):
            return {BOOL}
        if name == 'elements':
            return {('o', 'gen', site)}
        return {NONE} if name in ('remove', 'discard', 'clear', 'reverse', 'difference_update',
                                  'intersection_update') else set()

    def external(self, name, args, kwargs, e, m, f, star):
        if name.startswith('builtins.'):
            return self.builtin(name[9:], args, kwargs, e, m, f, star)
        if name in ('copy.copy', 'copy.deepcopy') and args:
            return set(args[0])
        if name in ('collections.defaultdict', 'collections.OrderedDict', 'collections.Counter'):
            site = ('d', id(e))
            if name.endswith('defaultdict') and args:
                self.add(self.content, site, self.callback(args[0], [], e, m, f))
            elif name.endswith('Counter'):
                self.add(self.content, site, {INT})
                if args:
                    self.add(self.keys, site, self.iter(args[0], e))
            return {('o', 'dict', site)}
        if name == 'collections.deque':
            site = ('d', id(e))
            if args:
                self.add(self.content, site, self.iter(args[0], e))
            return {('o', 'list', site)}
        if name == 'functools.partial' and args:
            return set(args[0])
        if name.startswith('itertools.'):
            site, t = ('d', id(e)), ('itt', id(e))
            for a in args:
                el = self.iter(a, e)
                if name.endswith(('combinations', 'permutations', 'product', 'zip_longest', 'pairwise',
                                  'combinations_with_replacement')):
                    self.add(self.content, t, el)
                    self.add(self.content, site, {('o', 'list', t)})
                elif name.endswith('groupby'):
                    g = ('itg', id(e))
                    self.add(self.content, g, el)
                    self.tuplen[t] = 2
                    self.add(self.elems, (t, 0), {ANY})
                    self.add(self.elems, (t, 1), {('o', 'gen', g)})
                    self.add(self.content, site, {('o', 'tuple', t)})
                    break
                elif name.endswith(('chain', 'islice', 'takewhile', 'dropwhile', 'filterfalse', 'cycle', 'repeat')):
                    self.add(self.content, site, el)
                else:
                    self.add(self.content, site, {ANY})
            for a in star:
                self.add(self.content, site, self.iter(self.iter({a}, e), e))
            return {('o', 'gen', site)}
        for a in args:
            for x in a:
                if x[0] in ('f', 'b', 'lam'):
                    pass
        return {ANY}

    def builtin(self, name, args, kwargs, e, m, f, star):
        a0 = args[0] if args else set()
        if name in ('list', 'set', 'frozenset', 'tuple', 'sorted', 'reversed', 'iter', 'filter'):
            site = ('d', id(e))
            src = args[1] if name == 'filter' and len(args) > 1 else a0
            el = self.iter(src, e)
            self.add(self.content, site, el)
            if name == 'filter':
                self.callback(a0, [el], e, m, f)
            if name == 'sorted':
                if 'key' in kwargs:
                    self.callback(kwargs['key'], [el], e, m, f)
                else:
                    for x in el:
                        self.dunder(x, '__lt__', [el], e)
            kind = {'list': 'list', 'sorted': 'list', 'set': 'set', 'frozenset': 'set', 'tuple': 'list'}.get(name, 'gen')
            return {('o', kind, site)}
        if name == 'dict':
            site = ('d', id(e))
            for x in a0:
                if x[0] == 'o' and x[1] == 'dict':
                    self.add(self.content, site, self.content_of(x))
                    self.add(self.keys, site, self.keys.get(x[2], set()))
                elif x[0] in ('I', 'i'):
                    ks = self.iter({x}, e)
                    self.add(self.keys, site, ks)
                    self.add(self.content, site, self.dunder(x, '__getitem__', [ks], e))
                else:
                    for t in self.iter({x}, e):
                        if t[0] == 'o' and self.tuplen.get(t[2]) == 2:
                            self.add(self.keys, site, self.elems.get((t[2], 0), set()))
                            self.add(self.content, site, self.elems.get((t[2], 1), set()))
            for n, x in kwargs.items():
                self.add(self.keys, site, {STR})
                self.add(self.content, site, x)
            return {('o', 'dict', site)}
        if name in ('enumerate', 'zip'):
            site, t = ('d', id(e)), ('zt', id(e))
            cols = [{INT}, self.iter(a0, e)] if name == 'enumerate' else [self.iter(a, e) for a in args]
            if star:
                self.add(self.content, t, self.iter(self.iter(star, e), e))
            else:
                self.tuplen[t] = len(cols)
            for i, c in enumerate(cols):
                self.add(self.elems, (t, i), c)
                self.add(self.content, t, c)
            self.add(self.content, site, {('o', 'tuple', t)})
            return {('o', 'gen', site)}
        if name == 'map' and len(args) > 1:
            site = ('d', id(e))
            self.add(self.content, site, self.callback(a0, [self.iter(a, e) for a in args[1:]], e, m, f))
            return {('o', 'gen', site)}
        if name == 'next':
            return self.iter(a0, e) | (args[1] if len(args) > 1 else set())
        if name in ('max', 'min'):
            if len(args) == 1 and not star:
                el = self.iter(a0, e)
            else:
                el = set().union(*args) if args else set()
                if star:
                    el |= self.iter(star, e)
            if 'key' in kwargs:
                self.callback(kwargs['key'], [el], e, m, f)
            return set(el) | kwargs.get('default', set())
        if name == 'sum':
            return {INT} | {x for x in self.iter(a0, e) if x == FLOAT}
        if name in ('str', 'repr', 'chr', 'ascii', 'format', 'input', 'hex'):
            for x in a0:
                self.dunder(x, '__str__', [], e)
                self.dunder(x, '__repr__', [], e)
            return {STR}
        if name in ('len', 'int', 'ord', 'hash', 'id', 'round', 'abs'):
            for x in a0:
                if name == 'len':
                    self.dunder(x, '__len__', [], e)
            return {FLOAT, INT} if name in ('round', 'abs') else {INT}
        if name in ('isinstance', 'issubclass', 'hasattr', 'callable', 'any', 'all', 'bool'):
            if name in ('any', 'all'):
                self.iter(a0, e)
            return {BOOL}
        if name == 'float':
            return {FLOAT}
        if name == 'range':
            self.add(self.content, ('range',), {INT})
            return {('o', 'gen', ('range',))}
        if name == 'print':
            for a in args:
                for x in a:
                    self.dunder(x, '__str__', [], e)
            return {NONE}
        if name == 'getattr' and len(args) > 1:
            ex = e.args[1] if isinstance(e, ast.Call) and len(e.args) > 1 else None
            if isinstance(ex, ast.Constant) and isinstance(ex.value, str):
                out = set(args[2]) if len(args) > 2 else set()
                for x in a0:
                    out |= self.getattr(x, ex.value, e)
                return out
            return {ANY}
        if name == 'setattr':
            ex = e.args[1] if isinstance(e, ast.Call) and len(e.args) > 1 else None
            if isinstance(ex, ast.Constant) and isinstance(ex.value, str) and len(args) > 2:
                for x in a0:
                    self.setattr(x, ex.value, args[2], e)
            return {NONE}
        if name == 'type':
            return {('C', x[1]) for x in a0 if x[0] in ('I', 'i')} or {ANY}
        if name == 'super':
            return {ANY}
        if name.endswith(('Error', 'Exception')) or name in ('StopIteration', 'KeyboardInterrupt'):
            return {('x', 'builtins.exc')}
        return {ANY}

    # ------------------------------------------------------------------ queries
    def of(self, m, f, e):
        """Type set of an expression after the fixpoint."""
        self.frozen = True
        return self.ev(m, f, e)

    def classes_of(self, m, f, e):
        return {v[1] for v in self.of(m, f, e) if v[0] in ('I', 'i')}


def _load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, 'ctx'):
        t.ctx = ast.Load()
    return t
