"""Access paths of expressions and the in-place changes functions make to what their parameters refer to.

A path is a tuple (root, label, ...): root is a parameter name (or ('g', name) for a module-level name), a label is
'Class.attr' for an attribute or '*' for an element.  Lists made on the spot (displays, comprehensions, slices,
list(), sorted(), node lists built by a query) have no path: changing them changes nothing anybody else sees.
"""
import ast

from .project import local_bindings, own_nodes

COPIES = {'list', 'sorted', 'set', 'tuple', 'dict', 'frozenset', 'str', 'len', 'sum', 'min', 'max', 'any', 'all', 'int',
          'float', 'bool', 'repr', 'map', 'filter', 'range'}
HOLDERS = {'list', 'sorted', 'set', 'tuple', 'frozenset', 'ListOfNodes', 'reversed', 'iter', 'dict'}
LAZY = {'enumerate', 'reversed', 'iter', 'zip'}
SHRINK = {'remove', 'pop', 'popleft', 'clear', 'popitem', 'discard', 'difference_update', 'intersection_update',
          'reverse', 'sort'}
GROW = {'append', 'insert', 'extend', 'add', 'update', 'setdefault', 'appendleft'}
MAXLEN = 7

INVERSE = {
    ('Node._children', '*', 'Node._parent'): (),
    ('Node._children', '*', 'Node._root'): ('Node._root',),
    ('Node._parent', 'Node._root'): ('Node._root',),
    ('Root._descendants', '*', 'Node._root'): (),
    ('Root.empty_nodes', '*', 'Node._root'): (),
    ('Root._mwts', '*', 'MWT.root'): (),
    ('MWT.words', '*', 'Node._mwt'): (),
    ('Document.bundles', '*', 'Bundle._document'): (),
    ('Bundle.trees', '*', 'Root._bundle'): (),
    ('CorefEntity._mentions', '*', 'CorefMention._entity'): (),
    ('Node._mentions', '*', 'CorefMention._words', '*'): (),
    ('CorefMention._words', '*', 'Node._root', 'Root._bundle', 'Bundle._document'): ('!doc',),
}


def norm(path):
    labels = list(path[1:])
    again = True
    while again:
        again = False
        for pat, rep in INVERSE.items():
            for i in range(len(labels) - len(pat) + 1):
                if tuple(labels[i:i + len(pat)]) == pat:
                    labels[i:i + len(pat)] = rep
                    again = True
                    break
            if again:
                break
    return (path[0],) + tuple(labels)


class Paths:
    def __init__(self, p, types):
        self.p, self.t = p, types
        self.owners = {}            # attr -> set of classes defining it
        for c in p.classes.values():
            names = set(c.slots or ())
            for m in list(c.methods.values()) + list(c.setters.values()):
                for n in own_nodes(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                            m.params and n.value.id == m.params[0]:
                        names.add(n.attr)
            for a in names:
                if not any(a in set(b.slots or ()) for b in c.mro() if b is not c):
                    self.owners.setdefault(a, set()).add(c)
        self.assigns = {}
        self._ret, self._gen, self._busy = {}, {}, set()
        self._eff = None
        self._cv, self._ia, self._lb, self._loops = {}, {}, {}, {}
        self._added, self._rel = {}, {}

    # ---- labels
    def label(self, f, base, attr):
        own = self.owners.get(attr, ())
        cls = self.t.classes_of(f.module, f, base)
        got = set()
        for q in cls:
            c = self.p.classes.get(q)
            if c is not None:
                got |= {o for o in own if c.is_sub(o) or o.is_sub(c)}
        if len(got) == 1:
            return f'{got.pop().name}.{attr}'
        if not got and len(own) == 1:
            return f'{next(iter(own)).name}.{attr}'
        return '?.' + attr

    # ---- local variables
    def local(self, f):
        if f in self.assigns:
            return self.assigns[f]
        out = {}

        def bind(t, kind, e):
            if isinstance(t, ast.Name):
                out.setdefault(t.id, []).append((kind, e))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    if kind == 'val' and isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts):
                        bind(x, 'val', e.elts[i])
                    elif kind == 'elem' and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                            e.func.id == 'enumerate' and e.args:
                        if i == 1:
                            bind(x, 'elem', e.args[0])
                        else:
                            bind(x, 'none', None)
                    elif kind == 'elem' and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                            e.func.id == 'zip' and i < len(e.args):
                        bind(x, 'elem', e.args[i])
                    elif kind == 'elem' and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                            e.func.attr == 'items' and i == 1:
                        bind(x, 'elem', e.func.value)
                    else:
                        bind(x, 'unk', None)
            elif isinstance(t, ast.Starred):
                bind(t.value, 'unk', None)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, 'val', n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, 'val', n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, 'elem', n.iter)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, 'val', n.value)
            elif isinstance(n, ast.AugAssign):
                bind(n.target, 'none', None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        bind(i.optional_vars, 'unk', None)
        self.assigns[f] = out
        return out

    # ---- expressions
    def of(self, f, e, depth=0):
        """Paths of the object an expression evaluates to (empty: fresh or unknown)."""
        if depth > 12 or e is None:
            return set()
        if isinstance(e, ast.Name):
            loc = self.local(f).get(e.id, [])
            out = set()
            if e.id in f.params or e.id in {a.arg for a in f.node.args.kwonlyargs}:
                out.add((e.id,))
            elif not loc and e.id not in local_bindings(f.node):
                if f.parent is not None and isinstance(f.parent, type(f)) and e.id in local_bindings(f.parent.node):
                    return set()
                r = self.p.resolve_in_module(f.module, e.id)
                if isinstance(r, tuple) and r[0] == 'global':
                    return {(('g', r[1].name + '.' + r[2]),)}
                return {(('g', e.id),)}
            key = (f, e.id)
            if key in self._busy:
                return out
            self._busy.add(key)
            try:
                for kind, x in loc:
                    if self.later(f, x, e):
                        continue
                    if kind == 'val':
                        out |= self.of(f, x, depth + 1)
                    elif kind == 'elem':
                        out |= self.elements(f, x, depth + 1)
            finally:
                self._busy.discard(key)
            return self.cap(out) or {(('v', e.id),)}
        if isinstance(e, ast.Attribute):
            return self.attr(f, e, depth)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()
            return self.cap({q + ('*',) for q in self.container(f, e.value, depth + 1)} | self.elements(f, e.value, depth + 1, True))
        if isinstance(e, ast.IfExp):
            return self.of(f, e.body, depth + 1) | self.of(f, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.of(f, v, depth + 1) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.of(f, e.value, depth + 1)
        if isinstance(e, ast.Call):
            return self.call(f, e, depth)
        return set()

    def later(self, f, definition, use):
        """Is the definition textually after the use, without a loop around both?"""
        a, b = getattr(definition, 'lineno', 0), getattr(use, 'lineno', 10 ** 9)
        if a <= b:
            return False
        if f not in self._loops:
            self._loops[f] = [(n.lineno, n.end_lineno) for n in own_nodes(f.node) if isinstance(n, (ast.For, ast.While))]
        return not any(s <= b and a <= t for s, t in self._loops[f])

    def container(self, f, e, depth):
        """Paths of the list behind an indexed expression (objects with __getitem__ delegate to their list)."""
        out = set()
        base = self.of(f, e, depth)
        for c in self.classes(f, e):
            g = c.find_method('__getitem__')
            if g is not None:
                for r in self.returned(g):
                    if r[-1] == '*':
                        out |= {q + r[1:-1] for q in base if r[0] == g.params[0]}
        return self.cap(out or base)

    def classes(self, f, e):
        return [self.p.classes[q] for q in self.t.classes_of(f.module, f, e) if q in self.p.classes]

    def attr(self, f, e, depth):
        out = set()
        r = self.p.resolve_expr(f.module, e) if self.global_chain(f, e) else None
        if isinstance(r, tuple) and r[0] == 'global':
            return {(('g', r[1].name + '.' + r[2]),)}
        shared = self.class_level(f, e)
        if shared:
            return shared
        bases = self.of(f, e.value, depth + 1)
        if not bases:
            return out
        cls = self.classes(f, e.value)
        getters = {g for c in cls for g in [c.find_getter(e.attr)] if g is not None}
        for c in cls:
            for s in c.all_subs():
                if e.attr in s.getters:
                    getters.add(s.getters[e.attr])
        if getters:
            for g in getters:
                for r in self.returned(g):
                    if r[0] == g.params[0]:
                        out |= {b + r[1:] for b in bases}
            plain = [c for c in cls if c.find_getter(e.attr) is None and any(c.is_sub(o) for o in self.owners.get(e.attr, ()))]
            for c in plain:
                own = [o.name for o in self.owners[e.attr] if c.is_sub(o)]
                out |= {b + (f'{own[0]}.{e.attr}',) for b in bases}
            return self.cap(out)
        if cls and all(c.find_method(e.attr) is not None for c in cls):
            return out
        lab = self.label(f, e.value, e.attr)
        if f.name == '__init__' and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0]:
            out |= self.given(f, e, depth)
        return self.cap(out | {b + (lab,) for b in bases})

    def given(self, f, e, depth):
        """Paths of what the constructor itself stored in the attribute before."""
        out = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and not self.later(f, n, e) and n.value is not e:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and \
                            t.value.id == e.value.id and t is not e:
                        out |= self.of(f, n.value, depth + 1)
        return {q for q in out if not (isinstance(q[0], tuple) and q[0][0] == 'v')}

    def global_chain(self, f, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name) or e.id in f.params:
            return False
        if f not in self._lb:
            self._lb[f] = set(local_bindings(f.node))
        return e.id not in self._lb[f]

    def class_level(self, f, e):
        """The attribute of a class itself (shared by all its objects) an expression denotes, if no object overrides it."""
        owners = list(self.classes(f, e.value))
        if self.global_chain(f, e.value):
            c = self.p.resolve_expr(f.module, e.value)
            if hasattr(c, 'find_method'):
                owners.append(c)
        if isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0]:
            owners.append(f.cls)
        out = set()
        for c in owners:
            if e.attr in self.instance_attrs(c):
                continue
            for b in c.mro():
                if e.attr in b.methods or e.attr in b.getters:
                    break
                if e.attr in self.class_vars(b):
                    out.add((('g', b.qual + '.' + e.attr),))
                    break
        return out

    def class_vars(self, c):
        if c not in self._cv:
            self._cv[c] = {t.id: st.value for st in c.node.body if isinstance(st, (ast.Assign, ast.AnnAssign))
                           for t in (st.targets if isinstance(st, ast.Assign) else [st.target])
                           if isinstance(t, ast.Name) and st.value is not None}
        return self._cv[c]

    def instance_attrs(self, c):
        if c not in self._ia:
            out = set()
            for b in c.mro():
                for g in list(b.methods.values()) + list(b.setters.values()):
                    if g.params and not g.is_static and not g.is_classmethod:
                        out |= {n.attr for n in own_nodes(g.node) if isinstance(n, ast.Attribute) and
                                isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == g.params[0]}
            self._ia[c] = out
        return self._ia[c]

    def cap(self, ps):
        return {norm(q) for q in ps if len(q) <= MAXLEN}

    def call(self, f, e, depth):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id in COPIES | {'ListOfNodes'}:
            return set()
        if isinstance(fn, ast.Name) and fn.id in LAZY:
            return set().union(*[self.of(f, a, depth + 1) for a in e.args]) if e.args else set()
        if isinstance(fn, ast.Name) and fn.id == 'next' and e.args:
            return self.elements(f, e.args[0], depth + 1)
        if isinstance(fn, ast.Name) and fn.id in ('min', 'max') and len(e.args) == 1:
            return self.elements(f, e.args[0], depth + 1, True)
        if isinstance(fn, ast.Attribute) and fn.attr in ('pop', 'get', 'setdefault', 'popleft') and not self.targets(e):
            return self.cap({q + ('*',) for q in self.of(f, fn.value, depth + 1)} |
                            self.elements(f, fn.value, depth + 1, True))
        out = set()
        if isinstance(fn, ast.Attribute) and fn.attr in ('items', 'keys', 'values', '__iter__'):
            out = self.of(f, fn.value, depth + 1)
        for g in self.targets(e):
            if g.name == '__init__':
                continue
            binding = self.bind(f, e, g)
            for r in self.returned(g):
                for b in self.arg(f, binding, r[0], depth):
                    out.add(b + r[1:])
        return self.cap(out)

    def targets(self, e):
        out = []
        for key in self.t.calls.get(e, ()):
            if isinstance(key, str) and key.startswith('class:'):
                c = self.p.classes.get(key[6:])
                g = c.find_method('__init__') if c is not None else None
            else:
                g = self.p.functions.get(key)
            if g is not None:
                out.append(g)
        return out

    def bind(self, f, e, g):
        """param name -> argument expression of a call."""
        params = list(g.params)
        out = {}
        if g.cls is not None and not g.is_static and params:
            if g.name == '__call__' and not (isinstance(e.func, ast.Attribute) and e.func.attr == '__call__'):
                out[params[0]] = e.func
                params = params[1:]
            elif g.name == '__init__' and not (isinstance(e.func, ast.Attribute) and e.func.attr == '__init__'):
                params = params[1:]
            elif isinstance(e.func, ast.Attribute):
                v = e.func.value
                unbound = not g.is_classmethod and any(t[0] == 'C' for t in self.t.of(f.module, f, v))
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    out[params[0]] = ast.Name(id=f.params[0], ctx=ast.Load()) if f.params else None
                    params = params[1:]
                elif not unbound:
                    out[params[0]] = v
                    params = params[1:]
        for a, x in zip(e.args, params):
            if isinstance(a, ast.Starred):
                break
            out[x] = a
        for k in e.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out

    def arg(self, f, binding, root, depth):
        if isinstance(root, tuple):
            return {(root,)}
        if root in binding and binding[root] is not None:
            return self.of(f, binding[root], depth + 1)
        return set()

    # ---- what functions return, and what iterating over their result walks through
    def returned(self, g):
        if g in self._ret:
            return self._ret[g]
        self._ret[g] = set()
        out = set()
        for n in own_nodes(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= self.of(g, n.value, 1)
        self._ret[g] = out = {q for q in out if not (isinstance(q[0], tuple) and q[0][0] == 'v')}
        return out

    def gen_loops(self, g):
        """(list paths, element paths) a generator function walks through while it is suspended."""
        if g in self._gen:
            return self._gen[g]
        self._gen[g] = (set(), set())
        lists, elems = set(), set()
        loops = [n for n in own_nodes(g.node) if isinstance(n, ast.For)]
        ys = [n for n in own_nodes(g.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        for y in ys:
            for lp in loops:
                if y in set(ast.walk(lp)):
                    lists |= self.iterated(g, lp.iter, 1)
            if isinstance(y, ast.YieldFrom):
                its = self.iterated(g, y.value, 1)
                lists |= its
                elems |= {q + ('*',) for q in its}
            elif y.value is not None:
                elems |= self.of(g, y.value, 1)
        self._gen[g] = tuple({q for q in s if not (isinstance(q[0], tuple) and q[0][0] == 'v')} for s in (lists, elems))
        return self._gen[g]

    @staticmethod
    def is_gen(g):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(g.node))

    def iterated(self, f, e, depth=0):
        """Paths of the stored collections that a loop over `e` walks through without copying them first."""
        if depth > 12 or e is None:
            return set()
        out = set()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in LAZY:
            for a in e.args:
                out |= self.iterated(f, a, depth + 1)
            return self.cap(out)
        if isinstance(e, ast.Call):
            gs = self.targets(e)
            if any(self.is_gen(g) for g in gs):
                for g in gs:
                    if self.is_gen(g):
                        b = self.bind(f, e, g)
                        for r in self.gen_loops(g)[0]:
                            out |= {x + r[1:] for x in self.arg(f, b, r[0], depth)}
                return self.cap(out)
        if isinstance(e, ast.Attribute):
            gens = {g for c in self.classes(f, e.value) for g in [c.find_getter(e.attr)] if g is not None and self.is_gen(g)}
            if gens:
                bases = self.of(f, e.value, depth + 1)
                for g in gens:
                    for r in self.gen_loops(g)[0]:
                        if r[0] == g.params[0]:
                            out |= {b + r[1:] for b in bases}
                return self.cap(out)
        if isinstance(e, ast.Name) and e.id not in f.params:
            for kind, x in self.local(f).get(e.id, []):
                if kind == 'val' and (f, 'it', e.id) not in self._busy:
                    self._busy.add((f, 'it', e.id))
                    out |= self.iterated(f, x, depth + 1)
                    self._busy.discard((f, 'it', e.id))
                elif kind == 'elem':
                    out |= {q + ('*',) for q in self.iterated(f, x, depth + 1)}
            base = out or self.of(f, e, depth + 1)
        else:
            base = self.of(f, e, depth + 1)
        res = set()
        its = []
        for c in self.classes(f, e):
            it = c.find_method('__iter__')
            if it is not None:
                its.append(it)
            elif any('Sequence' in str(b) for b in c.external_bases()) and c.find_method('__getitem__'):
                g = c.find_method('__getitem__')
                for r in self.returned(g):
                    if r[-1] == '*':
                        res |= {b + r[1:-1] for b in base}
        for it in its:
            rs = self.gen_loops(it)[0] if self.is_gen(it) else self.returned(it)
            for r in rs:
                if r[0] == it.params[0]:
                    res |= {b + r[1:] for b in base}
        return self.cap(res if its or res else base)

    def elements(self, f, e, depth=0, fresh=False):
        """Paths of the objects a collection holds, also if the collection itself was made on the spot."""
        if depth > 12 or e is None:
            return set()
        out = set() if fresh else {q + ('*',) for q in self.iterated(f, e, depth + 1)}
        key = (f, 'el', ast.dump(e) if not isinstance(e, ast.Name) else e.id)
        if key in self._busy:
            return out
        self._busy.add(key)
        try:
            out |= self.inner(f, e, depth + 1)
        finally:
            self._busy.discard(key)
        return {q for q in self.cap(out) if not (isinstance(q[0], tuple) and q[0][0] == 'v')}

    def inner(self, f, e, depth):
        if isinstance(e, ast.Name):
            out = set()
            if e.id in f.params:
                return out
            for kind, x in self.local(f).get(e.id, []):
                if kind == 'val' and not self.later(f, x, e):
                    out |= self.elements(f, x, depth, True)
            for x, star in self.added(f).get(e.id, ()):
                out |= self.elements(f, x, depth) if star else self.of(f, x, depth)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(*[self.elements(f, x.value, depth) if isinstance(x, ast.Starred) else self.of(f, x, depth)
                                 for x in e.elts])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.of(f, e.elt, depth)
        if isinstance(e, ast.BinOp):
            return self.elements(f, e.left, depth) | self.elements(f, e.right, depth)
        if isinstance(e, ast.IfExp):
            return self.elements(f, e.body, depth) | self.elements(f, e.orelse, depth)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.elements(f, v, depth) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.elements(f, e.value, depth)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return self.elements(f, e.value, depth)
        if isinstance(e, ast.Call):
            fn = e.func
            name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
            if isinstance(fn, ast.Name) and fn.id in HOLDERS and e.args:
                return self.elements(f, e.args[0], depth)
            if name == 'filter' and len(e.args) == 2:
                return self.elements(f, e.args[1], depth)
            if name == 'chain':
                return set().union(*[self.elements(f, a, depth) for a in e.args]) if e.args else set()
            if name in ('copy', 'values') and isinstance(fn, ast.Attribute) and not self.targets(e):
                return self.elements(f, fn.value, depth)
            out = set()
            for g in self.targets(e):
                if g.name != '__init__':
                    b = self.bind(f, e, g)
                    for r in self.returned_elements(g):
                        out |= {x + r[1:] for x in self.arg(f, b, r[0], depth)}
            return out
        if isinstance(e, ast.Attribute):
            out = set()
            for c in self.classes(f, e.value):
                for s in [c] + list(c.all_subs()):
                    g = s.find_getter(e.attr)
                    if g is not None:
                        for r in self.returned_elements(g):
                            if r[0] == g.params[0]:
                                out |= {b + r[1:] for b in self.of(f, e.value, depth)}
            return out
        return set()

    def added(self, f):
        """local name -> [(expression, is it a collection of the elements?)] put into the list it names."""
        if f not in self._added:
            out = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.args and n.func.attr in ('append', 'add', 'insert', 'extend', 'update', 'appendleft'):
                    out.setdefault(n.func.value.id, []).append((n.args[-1], n.func.attr in ('extend', 'update')))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.setdefault(n.target.id, []).append((n.value, True))
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            out.setdefault(t.value.id, []).append((n.value, isinstance(t.slice, ast.Slice)))
            self._added[f] = out
        return self._added[f]

    def returned_elements(self, g):
        if g in self._rel:
            return self._rel[g]
        self._rel[g] = set()
        out = set()
        if self.is_gen(g):
            out |= self.gen_loops(g)[1]
        else:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    out |= self.elements(g, n.value, 1)
        self._rel[g] = out = {q for q in out if not (isinstance(q[0], tuple) and q[0][0] == 'v')}
        return out

    # ---- effects
    def effects(self):
        """func -> set of (path, kind): what a call may change in place, in terms of its parameters."""
        if self._eff is not None:
            return self._eff
        eff = {f: set() for f in self.p.functions.values()}
        self._eff = eff
        self.direct = {}
        for f in eff:
            eff[f] |= self.direct_effects(f)
        calls = {f: [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and self.targets(n)] for f in eff}
        sets = {f: self.setter_calls(f) for f in eff}
        changed, rounds = True, 0
        while changed and rounds < 12:
            changed, rounds = False, rounds + 1
            for f in eff:
                new = set()
                for n in calls[f]:
                    new |= self.call_effects(f, n)
                for g, base, val in sets[f]:
                    new |= self.subst(f, g, {g.params[0]: base, g.params[1]: val} if len(g.params) > 1 else {g.params[0]: base})
                new = self.visible(new)
                if not new <= eff[f]:
                    eff[f] |= new
                    changed = True
        return eff

    def call_effects(self, f, n):
        out = set()
        for g in self.targets(n):
            if self._eff.get(g):
                out |= self.subst(f, g, self.bind(f, n, g))
        return out

    def subst(self, f, g, binding):
        out = set()
        cache = {}
        for path, kind in self._eff[g]:
            if path[0] not in cache:
                cache[path[0]] = self.arg(f, binding, path[0], 1)
            for b in cache[path[0]]:
                q = norm(b + path[1:])
                if len(q) <= MAXLEN:
                    out.add((q, kind))
        return out

    def setter_calls(self, f):
        """(setter, receiver, value expression) of stores to properties."""
        return [x for n in own_nodes(f.node) for x in self.setter_calls_of(f, n)]

    def dunder(self, f, e, name):
        return [g for c in self.classes(f, e) for g in [c.find_method(name)] if g is not None]

    def setter_calls_of(self, f, n):
        out = []
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    out += [(g, t.value, t.slice) for g in self.dunder(f, t.value, '__delitem__')]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popitem', 'clear') and \
                not self.targets(n):
            out += [(g, n.func.value, None) for g in self.dunder(f, n.func.value, '__delitem__')]
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value in (None, ''):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    out += [(g, t.value, None) for g in self.dunder(f, t.value, '__delitem__')]
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, ast.Attribute):
                        for c in self.classes(f, x.value):
                            s = c.find_setter(x.attr)
                            if s is not None:
                                out.append((s, x.value, n.value))
        return out

    def direct_effects(self, f):
        out = set()
        for n in own_nodes(f.node):
            for e, kind in self.node_effects(f, n):
                for q in self.of(f, e):
                    out.add((q, kind))
        return self.visible(out)

    @staticmethod
    def visible(effs):
        """Effects on objects only a local variable refers to are nobody else's business."""
        return {(q, k) for q, k in effs if not (isinstance(q[0], tuple) and q[0][0] == 'v')}

    def node_effects(self, f, n):
        """(container expression, kind) changed in place by this syntax node itself."""
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHRINK | GROW:
            if not self.targets(n):
                yield n.func.value, 'shrink' if n.func.attr in SHRINK else 'grow'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'insort' and n.args:
            yield n.args[0], 'grow'
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    yield t.value, 'shrink'
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                    yield t.value, 'shrink'
