"""Parse the analysed repository and resolve names, classes and functions.

Everything here works on the syntax trees of /repo's current working tree;
no code of the repository is imported or executed.
"""
import ast
import os
import warnings

SKIP_DIRS = {'tests', '__pycache__', '.git', 'docs'}


class AnalysisBroken(Exception):
    """An anchor of a rule is gone, or an instance count is implausible: no verdict."""


class Func:
    __slots__ = ('qual', 'name', 'node', 'module', 'cls', 'parent', 'locals_', 'is_static',
                 'is_classmethod', 'prop', '_nested', 'params', 'key')

    def __init__(self, qual, node, module, cls, parent):
        self.qual, self.node, self.module, self.cls, self.parent = qual, node, module, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.is_static = self.is_classmethod = False
        self.prop = None
        self._nested = {}
        for dec in getattr(node, 'decorator_list', []):
            if isinstance(dec, ast.Name) and dec.id == 'staticmethod':
                self.is_static = True
            elif isinstance(dec, ast.Name) and dec.id == 'classmethod':
                self.is_classmethod = True
            elif isinstance(dec, ast.Name) and dec.id in ('property', 'cached_property'):
                self.prop = 'get'
            elif isinstance(dec, ast.Attribute) and dec.attr == 'setter':
                self.prop = 'set'
            elif isinstance(dec, ast.Attribute) and dec.attr == 'deleter':
                self.prop = 'del'
        args = node.args
        self.params = [a.arg for a in args.posonlyargs + args.args]

    @property
    def lineno(self):
        return self.node.lineno

    @property
    def path(self):
        return self.module.path

    def __repr__(self):
        return f'<Func {self.qual}>'


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module, self.name = qual, node, module, node.name
        self.methods = {}      # name -> Func (plain methods)
        self.getters = {}      # property name -> Func
        self.setters = {}
        self.class_attrs = {}  # name -> value expression
        self.bases = []        # Class objects or dotted names of external classes
        self.slots = None
        self.subs = []

    def mro(self):
        """Linearisation good enough for this repository (C3 where possible)."""
        cached = getattr(self, '_mro', None)
        if cached is not None:
            return cached
        seqs = [[self]]
        for b in self.bases:
            if isinstance(b, Class):
                seqs.append(list(b.mro()))
        seqs.append([b for b in self.bases if isinstance(b, Class)])
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            seqs = [[c for c in s if c is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro = out
        return out

    def external_bases(self):
        out = []
        for c in self.mro():
            out.extend(b for b in c.bases if not isinstance(b, Class))
        return out

    def lookup(self, name):
        """('method'|'prop'|'attr', object, class) for a name found on the class, or None."""
        for c in self.mro():
            if name in c.getters or name in c.setters:
                return ('prop', (c.getters.get(name), c.setters.get(name)), c)
            if name in c.methods:
                return ('method', c.methods[name], c)
            if name in c.class_attrs:
                return ('attr', c.class_attrs[name], c)
        return None

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_getter(self, name):
        for c in self.mro():
            if name in c.getters:
                return c.getters[name]
            if name in c.methods or name in c.class_attrs:
                return None
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
            if name in c.getters or name in c.methods or name in c.class_attrs:
                return None
        return None

    def is_sub(self, other):
        return other in self.mro()

    def all_subs(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subs)
        return out

    def __repr__(self):
        return f'<Class {self.qual}>'


def _parse(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(src, filename=path)


class Module:
    def __init__(self, name, path, relpath, src):
        self.name, self.path, self.src = name, relpath, src
        self.abspath = path
        self.tree = _parse(src, path)
        self.lines = src.splitlines()
        self.names = {}      # module-level binding -> ('class', Class)|('func', Func)|('import', dotted)|('global', node)
        self.functions = []  # every Func incl. nested
        self.classes = []
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Namespace(str):
    """A package directory without __init__.py."""


class Project:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.classes = {}     # qual -> Class
        self.functions = {}   # qual -> Func
        self.func_of_node = {}
        self._load()
        self.namespaces = set()
        for name in self.modules:
            parts = name.split('.')
            for i in range(1, len(parts)):
                pre = '.'.join(parts[:i])
                if pre not in self.modules:
                    self.namespaces.add(pre)
        self._index()
        self._resolve_bases()
        self._parents = {}

    # ------------------------------------------------------------------ loading
    def _load(self):
        top = os.path.join(self.repo, 'udapi')
        files = []
        for dirpath, dirnames, filenames in os.walk(top):
            dirnames[:] = sorted(d for d in dirnames if d not in SKIP_DIRS)
            for f in sorted(filenames):
                if f.endswith('.py'):
                    files.append(os.path.join(dirpath, f))
        script = os.path.join(self.repo, 'bin', 'udapy')
        for path in files + ([script] if os.path.exists(script) else []):
            rel = os.path.relpath(path, self.repo)
            name = rel[:-3].replace(os.sep, '.') if rel.endswith('.py') else 'bin.udapy'
            if name.endswith('.__init__'):
                name = name[:-9]
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            try:
                self.modules[name] = Module(name, path, rel, src)
            except SyntaxError as err:
                raise AnalysisBroken(f'cannot parse {rel}: {err}')
        if len(self.modules) < 150:
            raise AnalysisBroken(f'only {len(self.modules)} modules found under {self.repo}')

    # ------------------------------------------------------------------ indexing
    def _index(self):
        for m in self.modules.values():
            self._index_body(m, m.tree.body, m.name, None, None, toplevel=True)

    def _bind_import(self, m, node, table):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    table[a.asname] = ('import', a.name)
                else:
                    table[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
        else:
            base = node.module or ''
            if node.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)] if node.level > 1 else parts
                base = '.'.join(parts + ([node.module] if node.module else []))
            for a in node.names:
                if a.name == '*':
                    table.setdefault('*', ('star', []))[1].append(base)
                else:
                    table[a.asname or a.name] = ('import', base + '.' + a.name)

    def _index_body(self, m, body, prefix, cls, parent, toplevel=False):
        for st in body:
            self._index_stmt(m, st, prefix, cls, parent, toplevel)

    def _index_stmt(self, m, st, prefix, cls, parent, toplevel):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self._add_func(m, st, prefix, cls, parent, toplevel)
        elif isinstance(st, ast.ClassDef):
            c = Class(prefix + '.' + st.name, st, m)
            self.classes[c.qual] = c
            m.classes.append(c)
            if toplevel:
                m.names[st.name] = ('class', c)
            elif parent is not None:
                parent._nested[st.name] = c
            for sub in st.body:
                if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._add_func(m, sub, c.qual, c, parent, False)
                elif isinstance(sub, ast.Assign):
                    for t in sub.targets:
                        if isinstance(t, ast.Name):
                            c.class_attrs[t.id] = sub.value
                            if t.id == '__slots__':
                                try:
                                    v = ast.literal_eval(sub.value)
                                    c.slots = [v] if isinstance(v, str) else list(v)
                                except ValueError:
                                    pass
                elif isinstance(sub, ast.AnnAssign) and isinstance(sub.target, ast.Name) and sub.value:
                    c.class_attrs[sub.target.id] = sub.value
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            if toplevel:
                self._bind_import(m, st, m.names)
        else:
            if toplevel and isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.names.setdefault(n.id, ('global', st))
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(st, f, None)
                if sub and isinstance(sub, list):
                    for s in sub:
                        if isinstance(s, ast.stmt):
                            self._index_stmt(m, s, prefix, cls, parent, toplevel)
            for h in getattr(st, 'handlers', []) or []:
                for s in h.body:
                    self._index_stmt(m, s, prefix, cls, parent, toplevel)
            if toplevel:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.names.setdefault(n.id, ('global', st))

    def _add_func(self, m, node, prefix, cls, parent, toplevel):
        f = Func(prefix + '.' + node.name, node, m, cls, parent)
        key = f.qual
        if f.prop == 'set':
            key += '.setter'
        elif f.prop == 'del':
            key += '.deleter'
        while key in self.functions:   # redefinition
            key += "'"
        f.key = key
        self.functions[key] = f
        self.func_of_node[node] = f
        m.functions.append(f)
        if toplevel:
            m.names[node.name] = ('func', f)
        elif cls is not None:
            if f.prop == 'get':
                cls.getters[node.name] = f
            elif f.prop == 'set':
                cls.setters[node.name] = f
            elif f.prop is None:
                cls.methods[node.name] = f
        elif parent is not None:
            parent._nested[node.name] = f
        # nested functions and classes, at any depth of statements
        for sub in node.body:
            self._index_stmt(m, sub, f.key + '.<locals>', None, f, False)

    def _resolve_bases(self, classes=None):
        classes = list(self.classes.values() if classes is None else classes)
        for c in classes:
            for b in c.node.bases:
                d = self.resolve_expr(c.module, b)
                if isinstance(d, Class):
                    c.bases.append(d)
                elif isinstance(d, str):
                    c.bases.append(d)
                else:
                    c.bases.append(ast.unparse(b))
        for c in classes:
            for b in c.bases:
                if isinstance(b, Class):
                    b.subs.append(c)

    # ------------------------------------------------------------------ resolution
    def resolve_dotted(self, dotted, depth=0):
        """Class | Func | Module | ('global', module, name) | external dotted str."""
        if depth > 12:
            return dotted
        if dotted in self.modules:
            return self.modules[dotted]
        if dotted in self.classes:
            return self.classes[dotted]
        if dotted in self.namespaces:
            return Namespace(dotted)
        if '.' in dotted:
            head, tail = dotted.rsplit('.', 1)
            owner = self.resolve_dotted(head, depth + 1)
            if isinstance(owner, Module):
                return self.resolve_in_module(owner, tail, depth + 1)
            if isinstance(owner, Namespace):
                return None
            if isinstance(owner, Class):
                hit = owner.lookup(tail)
                if hit and hit[0] == 'method':
                    return hit[1]
                return None
            if isinstance(owner, str):
                return dotted
            return None
        return dotted

    def resolve_in_module(self, m, name, depth=0):
        b = m.names.get(name)
        if b is None:
            for base in m.names.get('*', ('star', []))[1]:
                r = self.resolve_dotted(base + '.' + name, depth + 1)
                if r is not None and not isinstance(r, str):
                    return r
            sub = m.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            if sub in self.namespaces:
                return Namespace(sub)
            return None
        kind, obj = b
        if kind in ('class', 'func'):
            return obj
        if kind == 'import':
            return self.resolve_dotted(obj, depth + 1)
        if kind == 'global':
            return ('global', m, name)
        return None

    def resolve_expr(self, m, expr, func=None):
        """Resolve a Name/Attribute chain made of module-level bindings (no local shadowing check)."""
        if isinstance(expr, ast.Name):
            return self.resolve_in_module(m, expr.id)
        if isinstance(expr, ast.Attribute):
            owner = self.resolve_expr(m, expr.value)
            if isinstance(owner, Module):
                r = self.resolve_in_module(owner, expr.attr)
                return r
            if isinstance(owner, (str, Namespace)):
                d = str(owner) + '.' + expr.attr
                return self.resolve_dotted(d)
            if isinstance(owner, Class):
                hit = owner.lookup(expr.attr)
                if hit and hit[0] == 'method':
                    return hit[1]
            return None
        return None

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken(f'class {qual} not found')
        return c

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            raise AnalysisBroken(f'function {qual} not found')
        return f

    def parents(self, m):
        """child node -> parent node map of a module (cached)."""
        p = self._parents.get(m.name)
        if p is None:
            p = {}
            for n in ast.walk(m.tree):
                for ch in ast.iter_child_nodes(n):
                    p[ch] = n
            self._parents[m.name] = p
        return p

    def enclosing(self, m, node):
        """Innermost Func containing the node, or None."""
        p = self.parents(m)
        n = p.get(node)
        while n is not None:
            f = self.func_of_node.get(n)
            if f is not None:
                return f
            n = p.get(n)
        return None


def own_nodes(func_node):
    """All nodes of a function body, not descending into nested function/class definitions
    (but descending into lambdas and comprehensions)."""
    todo = list(getattr(func_node, 'body', []))
    if isinstance(func_node, ast.Lambda):
        todo = [func_node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                todo.extend(n.args.defaults)
                todo.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        todo.extend(ast.iter_child_nodes(n))


def local_bindings(func_node):
    """Names bound locally in a function (params, assignments, imports, loops, with, except...)."""
    out = set()
    a = func_node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    if isinstance(func_node, ast.Lambda):
        return out
    glob = set()
    for n in own_nodes(func_node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Import):
            for x in n.names:
                out.add(x.asname or x.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for x in n.names:
                out.add(x.asname or x.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
    return out - glob
