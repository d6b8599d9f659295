"""The exact interpreter over text with holes.

A hole is an unknown piece of text that contains none of the separators of the format; it is an opaque letter (of the
private use area) inside constant strings, so that cutting, joining and matching of text stays exact.  Whatever would look
inside a hole (its length, case, digits, order) gives an unknown value.
"""
import ast
import builtins
import json
import math
import re

from . import absint
from .absint import B, C, FALSE, NONE, O, Obj, T, TRUE, Undetermined, cat, is_c, is_gap, is_raise
from .exact import Exact
from .project import Module

FIRST = 0xE000
STDOUT, LOG = 'STDOUT', 'LOG'     # what is printed, and where
INSIDE = {'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'isdigit', 'isalpha', 'isupper', 'islower', 'isalnum',
          'isnumeric', 'isdecimal', 'istitle', 'isidentifier', 'isprintable', 'isascii', 'encode', 'zfill', 'ljust', 'rjust',
          'center', 'count', 'find', 'rfind', 'index', 'rindex', 'translate', 'isspace', 'expandtabs'}
AS_LETTERS = {'count', 'find', 'rfind', 'index', 'rindex', 'isspace', 'ljust', 'rjust', 'center'}
FLAGS = {'re.' + n: f'(?{c})' for c, names in (('m', 'M MULTILINE'), ('i', 'I IGNORECASE'), ('s', 'S DOTALL'), ('x', 'X VERBOSE'))
         for n in names.split()}
REGEX = ('match', 'search', 'fullmatch', 'sub', 'split', 'findall', 'finditer')


def hole(i):
    return chr(FIRST + i)


def holes(s):
    return any(0xE000 <= ord(c) < 0xF8FF for c in s)


def looks_inside(pattern):
    """Does the pattern tell characters apart in a way that depends on the content of a hole?"""
    return re.search(r'\\[wWdDbB]|\[[^]^][^]]*-', pattern) is not None


def client(project, src, name='@client'):
    """Add a module of client code (what a user of the library would write) to the analysed program."""
    old = project.modules.get(name)
    if old is not None and old.src == src:
        return
    m = Module(name, name, name, src)
    project.modules[name] = m
    for k in [k for k in project.functions if k.startswith(name + '.')]:
        del project.functions[k]
    for c in [c for q, c in project.classes.items() if q.startswith(name + '.')]:
        del project.classes[c.qual]
        for b in project.classes.values():
            if c in b.subs:
                b.subs.remove(c)
    project._index_body(m, m.tree.body, m.name, None, None, toplevel=True)
    project._resolve_bases([c for q, c in project.classes.items() if q.startswith(name + '.')])


class Node:
    lineno = col_offset = 0


class Text(Exact):
    letters = False      # may a hole be taken as one letter that is told from other characters?

    MAX_DEPTH = 40

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.unroll = 200
        self.recursion = 12
        absint.ALLOC_LIMIT[0] = 4000
        absint.ITEM_LIMIT[0] = 4000

    node = Node

    def start(self):
        st = absint.State()
        st.heap[STDOUT] = Obj('inst', cls='@file', attrs={'text': C(''), 'lines': ('tup', ()), 'pos': C(0)})
        st.heap[LOG] = Obj('list')
        return st

    @staticmethod
    def output(st):
        return st.heap[STDOUT].attrs['text']

    # ------------------------------------------------------------- constants of modules
    def global_value(self, module, name):
        binding = module.names.get(name)
        x = binding[1] if binding else None
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) == 're.compile' and \
                all(isinstance(a, ast.Constant) for a in x.value.args[:1]) and len(x.value.args) == 1 and not x.value.keywords:
            return T('regex', C(x.value.args[0].value))
        return super().global_value(module, name)

    def call_ext(self, name, args, kwargs, st, node):
        if name == 're.compile' and len(args) == 1 and not kwargs and is_c(args[0]):
            return [(T('regex', args[0]), st)]
        if name == 're.compile' and is_c(args[0]) and isinstance(args[0][2], str) and len(args) + len(kwargs) == 2:
            flag = args[1] if len(args) == 2 else kwargs.get('flags')
            if flag is not None and flag[0] == 'ext' and flag[1] in FLAGS:
                return [(T('regex', C(FLAGS[flag[1]] + args[0][2])), st)]
        if name.startswith('re.') and name[3:] in REGEX and args and is_c(args[0]) and isinstance(args[0][2], str):
            return self.regex(args[0], name[3:], args[1:], kwargs, st, node)
        if name == 're.escape' and is_c(args[0]):
            return [(C(re.escape(args[0][2])), st)]
        if name == 'json.loads' and len(args) == 1 and is_c(args[0]):
            try:
                v = json.loads(args[0][2])
            except ValueError:
                return [(self.exc('ValueError', node), st)]
            s = st.fork()
            return [(self.from_python(v, s, node), s)]
        if name == 'json.dumps' and args:
            try:
                v = self.to_python(args[0], st)
                kw = {k: self.to_python(x, st) for k, x in kwargs.items()}
            except ValueError:
                return super().call_ext(name, args, kwargs, st, node)
            return [(C(json.dumps(v, **kw)), st)]
        if name == 'io.StringIO' and (not args or is_c(args[0])):
            s = st.fork()
            text = args[0][2] if args else ''
            lines = text.splitlines(keepends=True) if False else re.findall(r'[^\n]*\n|[^\n]+', text)
            v = s.new(f'FH@{node.lineno}', Obj('inst', cls='@file', attrs={'pos': C(0), 'lines': ('tup', tuple(map(C, lines)))}, fresh=True))
            return [(v, s)]
        if name == 'contextlib.redirect_stdout':
            return [(T('redirect', args[0]), st)]
        if name in ('math.ceil', 'math.floor') and len(args) == 1 and is_c(args[0]):
            return [(C(getattr(math, name[5:])(args[0][2])), st)]
        if name in ('collections.defaultdict', 'collections.Counter') and not kwargs and len(args) == (name[-1] == 't'):
            s = st.fork()
            default = args[0] if args else ('bi', 'int')
            return [(s.new(f'DD{node.lineno}:{node.col_offset}', Obj('dict', attrs={'@default': default}, fresh=True)), s)]
        if name == 'collections.Counter' and len(args) == 1 and not kwargs and args[0][0] in ('seq', 'tup', 'o', 'c'):
            res = []
            for items, s in self.iterate(args[0], st, node):
                if items and items[0] == '!raise':
                    res.append((items, s))
                    continue
                if not all(is_c(x) for x in items):
                    break
                s = s.fork()
                counts = {}
                for x in items:
                    counts[x] = counts.get(x, 0) + 1
                res.append((s.new(f'DD{node.lineno}:{node.col_offset}', Obj('dict', items=tuple((k, C(n)) for k, n in counts.items()),
                                                                            attrs={'@default': ('bi', 'int')}, fresh=True)), s))
            else:
                return res
        if name.startswith('gc.'):
            return [(FALSE if name == 'gc.isenabled' else NONE, st)]
        return super().call_ext(name, args, kwargs, st, node)

    def from_python(self, v, s, node):
        if isinstance(v, dict):
            return s.new(f'J{node.lineno}', Obj('dict', items=tuple((C(k), self.from_python(x, s, node)) for k, x in v.items()), fresh=True))
        if isinstance(v, list):
            return s.new(f'J{node.lineno}', Obj('list', items=tuple(self.from_python(x, s, node) for x in v), fresh=True))
        return C(v)

    def to_python(self, v, st):
        if is_c(v):
            return v[2]
        if v[0] == 'tup':
            return [self.to_python(x, st) for x in v[1]]
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind in ('list', 'dict') and not any(is_gap(i) for i in o.items):
                if o.kind == 'list':
                    return [self.to_python(x, st) for x in o.items]
                return {self.to_python(k, st): self.to_python(x, st) for k, x in o.items}
        raise ValueError

    # ------------------------------------------------------------- regular expressions
    def regex(self, pattern, name, args, kwargs, st, node):
        pat = pattern[2]
        if not args or kwargs or not all(is_c(a) for a in args) or not all(isinstance(a[2], (str, int)) for a in args):
            return [(T('regex_' + name, pattern, *[self.snap(a, st) for a in args]), st)]
        text = args[1 if name == 'sub' and len(args) > 1 else 0][2]
        if not isinstance(text, str):
            return [(self.exc('TypeError', node), st)]
        if holes(text) and looks_inside(pat):
            return [(T('regex_' + name, pattern, *args), st)]
        try:
            r = getattr(re, name)(pat, *[a[2] for a in args])
        except (re.error, TypeError):
            return [(T('regex_' + name, pattern, *args), st)]
        s = st.fork()
        if name in ('match', 'search', 'fullmatch'):
            return [(NONE if r is None else T('found', pattern, name, args[0]), st)]
        if name == 'finditer':
            return [(('seq', tuple(T('found', pattern, ('iter', i), args[0]) for i, _ in enumerate(r))), st)]
        if isinstance(r, list):
            items = tuple(('tup', tuple(map(C, x))) if isinstance(x, tuple) else C(x) for x in r)
            return [(s.new(f'RE{node.lineno}:{node.col_offset}', Obj('list', items=items, fresh=True)), s)]
        return [(C(r), st)]

    @staticmethod
    def found(v):
        _, _, pattern, name, text = v
        if isinstance(name, tuple):
            return list(re.finditer(pattern[2], text[2]))[name[1]]
        return getattr(re, name)(pattern[2], text[2])

    # ------------------------------------------------------------- text
    def call_method(self, v, name, args, kwargs, st, node, *rest):
        if v[0] == 't' and v[1] == 'regex' and name in REGEX:
            return self.regex(v[2], name, args, kwargs, st, node)
        if v[0] == 't' and v[1] == 'found' and all(is_c(a) for a in args) and not kwargs:
            m = self.found(v)
            if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span'):
                try:
                    r = getattr(m, name)(*[a[2] for a in args])
                except (IndexError, re.error):
                    return [(self.exc('IndexError', node), st)]
                if name in ('start', 'end', 'span') and holes(v[4][2]):
                    return [(T('meth', name, v), st)]
                if isinstance(r, dict):
                    s = st.fork()
                    return [(self.from_python(r, s, node), s)]
                return [(('tup', tuple(C(x) for x in r)) if isinstance(r, tuple) else C(r), st)]
        if v[0] == 'o' and st.heap[v[1]].cls == '@file':
            return self.file_method(v, name, args, st, node)
        if is_c(v) and isinstance(v[2], str) and holes(v[2]) and name in INSIDE and not (self.letters and name in AS_LETTERS):
            return [(T('inside', name, v, *args), st)]
        if is_c(v) and isinstance(v[2], str) and name in ('splitlines', 'format', 'startswith', 'endswith') and not kwargs:
            flat = [tuple(x[2] for x in a[1]) if a[0] == 'tup' and all(is_c(x) for x in a[1]) else a[2] if is_c(a) else None for a in args]
            if None not in flat:
                try:
                    r = getattr(v[2], name)(*flat)
                except (TypeError, IndexError, KeyError) as err:
                    return [(self.exc(type(err).__name__, node), st)]
                if isinstance(r, list):
                    s = st.fork()
                    return [(s.new(f'SL{node.lineno}:{node.col_offset}', Obj('list', items=tuple(map(C, r)), fresh=True)), s)]
                return [(C(r), st)]
        if name == 'update' and len(args) == 1 and not kwargs and v[0] == 'o' and st.heap[v[1]].attrs.get('@default') == ('bi', 'int') and \
                args[0][0] in ('seq', 'tup', 'o') and (args[0][0] != 'o' or st.heap[args[0][1]].kind != 'dict') and \
                not any(map(is_gap, st.heap[v[1]].items)):
            res = []
            for items, s in self.iterate(args[0], st, node):
                counts = dict(st.heap[v[1]].items)
                if items and items[0] == '!raise' or not all(is_c(x) for x in items) or not all(is_c(n) for n in counts.values()):
                    return super().call_method(v, name, args, kwargs, st, node, *rest)
                for x in items:
                    counts[x] = C(counts.get(x, C(0))[2] + 1)
                s = s.fork()
                s.w(v[1]).items = tuple(counts.items())
                res.append((NONE, s))
            return res
        if v[0] == 'bm' or v[0] == 't' and v[1] == 'sys':
            return [(NONE, st)]
        return super().call_method(v, name, args, kwargs, st, node, *rest)

    def call_builtin(self, name, args, kwargs, st, node, fr):
        a0 = args[0] if args else None
        if name in ('int', 'float', 'str', 'bool') and not args and not kwargs:
            return [(C(getattr(builtins, name)()), st)]
        if name == 'print':
            return self.printed(args, kwargs, st, node)
        if name == 'len' and is_c(a0) and isinstance(a0[2], str) and holes(a0[2]):
            return [(T('len', a0), st)]
        if name in ('int', 'float') and len(args) == 1 and is_c(a0) and isinstance(a0[2], str):
            if holes(a0[2]):
                return [(T('num', name, a0), st)]
            try:
                return [(C(int(a0[2]) if name == 'int' else float(a0[2])), st)]
            except ValueError:
                return [(self.exc('ValueError', node), st)]
        if name == 'type' and len(args) == 1 and a0[0] == 'o' and st.heap[a0[1]].cls in self.p.classes and not kwargs:
            return [(('cls', st.heap[a0[1]].cls), st)]
        if name == 'vars' and len(args) == 1 and a0[0] == 'cls':
            return self.getattr(a0, '__dict__', st, node)
        if name == 'hasattr' and len(args) == 2 and is_c(args[1]) and a0[0] == 'fn':
            return [(B(self.marked(self.p.functions[a0[1]], args[1][2])), st)]
        if name in ('any', 'all') and len(args) == 1 and args[0][0] == 'tup' and all(is_c(x) for x in args[0][1]):
            return [(B((any if name == 'any' else all)(x[2] for x in args[0][1])), st)]
        if name in ('map', 'filter') and len(args) == 2 and not kwargs:
            r = self.mapped(name, args, st, node, fr)
            if r is not None:
                return r
        if name == 'sum' and len(args) == 1 and not kwargs and a0[0] in ('seq', 'tup', 'o'):
            res = []
            for items, s in self.iterate(a0, st, node):
                if items and items[0] == '!raise' or not all(is_c(x) and isinstance(x[2], (int, float)) for x in items):
                    return super().call_builtin(name, args, kwargs, st, node, fr)
                res.append((C(sum(x[2] for x in items)), s))
            return res
        if name in ('max', 'min', 'abs', 'chr', 'ord', 'divmod', 'sum') and args and not kwargs and all(is_c(x) for x in args) and \
                not any(isinstance(x[2], str) and holes(x[2]) for x in args) and (len(args) > 1 or name in ('abs', 'chr', 'ord')):
            try:
                r = getattr(builtins, name)(*[x[2] for x in args])
            except (TypeError, ValueError) as e:
                return [(self.exc(type(e).__name__, node), st)]
            return [(C(r) if not isinstance(r, tuple) else ('tup', tuple(map(C, r))), st)]
        if name == 'id' and a0 is not None:
            return [(T('id', a0), st)]
        return super().call_builtin(name, args, kwargs, st, node, fr)

    def mapped(self, name, args, st, node, fr):
        out = []
        for items, s in self.iterate(args[1], st, node):
            if items and items[0] == '!raise':
                out.append((items, s))
                continue
            if any(is_gap(x) for x in items):
                return None
            acc = [((), s)]
            for x in items:
                nxt = []
                for got, s2 in acc:
                    for v, s3 in [(x, s2)] if args[0] == NONE else self.call(args[0], [x], {}, s2, node, fr):
                        if is_raise(v):
                            out.append((v, s3))
                        elif name == 'map':
                            nxt.append((got + (v,), s3))
                        else:
                            for t, s4 in self.truth(v, s3):
                                if is_raise(t) if isinstance(t, tuple) else False:
                                    out.append((t, s4))
                                else:
                                    nxt.append((got + (x,) if t else got, s4))
                acc = nxt
            out.extend((('seq', got), s2) for got, s2 in acc)
        return out

    def marked(self, f, attr):
        """Is the attribute set on the function by one of its decorators?"""
        for d in f.node.decorator_list:
            r = self.p.resolve_in_module(f.module, d.id) if isinstance(d, ast.Name) else None
            if r is not None and hasattr(r, 'node'):
                for n in ast.walk(r.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
                        return True
        return False

    def printed(self, args, kwargs, st, node):
        out = []
        sep, end = kwargs.get('sep', C(' ')), kwargs.get('end', C('\n'))
        todo = [([], st)]
        for a in args:
            nxt = []
            for parts, s in todo:
                for r, s2 in self.to_str(a, s, node):
                    if is_raise(r):
                        out.append((r, s2))
                    else:
                        nxt.append((parts + ([sep] if parts else []) + [r], s2))
            todo = nxt
        for parts, s in todo:
            s = s.fork()
            self.write(s, kwargs.get('file', NONE), cat(parts + [end]), node)
            out.append((NONE, s))
        return out

    def write(self, s, to, text, node):
        oid = STDOUT
        if to[0] == 'o' and s.heap[to[1]].cls == '@file':
            oid = to[1]
        w = s.w(oid)
        w.attrs['text'] = cat([w.attrs.get('text', C('')), text])
        log = s.w(LOG)
        log.items = log.items + (('site', self.stack[-1], node.lineno, text),)

    @staticmethod
    def redirect(s, to):
        o, w = s.heap[STDOUT], s.w(to[1])
        w.attrs['text'] = cat([w.attrs.get('text', C('')), o.attrs['text']])

    def file_method(self, v, name, args, st, node):
        s = st.fork()
        w = s.w(v[1])
        lines, pos = w.attrs['lines'][1], w.attrs['pos'][2]
        if name == 'read' and not args:
            w.attrs['pos'] = C(len(lines))
            return [(C(''.join(x[2] for x in lines[pos:])), s)]
        if name == 'readline':
            w.attrs['pos'] = C(min(pos + 1, len(lines)))
            return [(lines[pos] if pos < len(lines) else C(''), s)]
        if name == 'readlines':
            w.attrs['pos'] = C(len(lines))
            return [(s.new(f'RL{node.lineno}', Obj('list', items=lines[pos:], fresh=True)), s)]
        if name == 'getvalue':
            return [(w.attrs.get('text', C('')), s)]
        if name == 'write':
            self.write(s, v, args[0], node)
        return [(NONE, s)]

    def iterate(self, it, st, node):
        if is_c(it) and isinstance(it[2], str):
            if holes(it[2]) and not self.letters or len(it[2]) > 400:
                raise Undetermined('iteration over the characters of an unknown text')
            return [(tuple(C(ch) for ch in it[2]), st)]
        if it[0] == 'o' and st.heap[it[1]].kind == 'inst' and st.heap[it[1]].cls in self.p.classes:
            cls = self.p.classes[st.heap[it[1]].cls]
            item = cls.find_method('__getitem__')
            if item is not None and cls.find_method('__iter__') is None:
                return self.by_index(item, it, st, node)
        return super().iterate(it, st, node)

    def by_index(self, item, it, st, node):
        """Iteration over an object with __getitem__ only."""
        items = []
        while len(items) < 100:
            res = self.call_func(item, [it, C(len(items))], {}, st, node)
            if len(res) != 1:
                break
            r, st = res[0]
            if is_raise(r):
                return [(tuple(items) if r[1][1] == 'IndexError' else r, st)]
            items.append(r)
        raise Undetermined('iteration over an unknown sequence')

    def getattr(self, v, name, st, node):
        if v[0] == 'o' and st.heap[v[1]].cls == '@file' or v[0] == 't' and v[1] in ('regex', 'found'):
            return [(('bm', v, name), st)]
        if v[0] == 'o' and name == '__module__' and st.heap[v[1]].cls in self.p.classes:
            return [(C(self.p.classes[st.heap[v[1]].cls].module.name), st)]
        if v[0] == 'fn':
            f = self.p.functions[v[1]]
            if name == '__func__':
                return [(('fn', v[1], None, v[3]), st)]
            if name == '__name__':
                return [(C(f.name), st)]
            return [(C(True) if self.marked(f, name) else self.exc('AttributeError', node, name), st)]
        if v[0] == 'cls' and name == '__dict__':
            c = self.p.classes[v[1]]
            return [(('tup', tuple(map(C, [*c.methods, *c.getters, *c.class_attrs]))), st)]
        if v[0] == 'ext' and v[1] == 'sys' and name == 'stdout':
            return [(O(STDOUT), st)]
        if name in ('append', 'extend', 'pop', 'remove', 'index', 'count') and v[0] == 'o' and st.heap[v[1]].kind == 'inst' and \
                name not in st.heap[v[1]].attrs and st.heap[v[1]].cls in self.p.classes:
            c = self.p.classes[st.heap[v[1]].cls]
            if c.find_method(name) is None and any(str(b).endswith('Sequence') for b in c.external_bases()):
                return [(('mixin', v, name), st)]
        return super().getattr(v, name, st, node)

    def call_mixin(self, v, name, args, kwargs, st, node):
        """Methods inherited from collections.abc.MutableSequence, by their documented definitions."""
        c = self.p.classes[st.heap[v[1]].cls]
        if name == 'append' and len(args) == 1 and c.find_method('insert') and c.find_method('__len__'):
            out = []
            for n, s in self.call_func(c.find_method('__len__'), [v], {}, st, node):
                out.extend([(n, s)] if is_raise(n) else self.call_func(c.find_method('insert'), [v, n] + args, {}, s, node))
            return out
        if name == 'extend' and len(args) == 1:
            out = []
            for items, s in self.iterate(args[0], st, node):
                if items and items[0] == '!raise' or any(map(is_gap, items)):
                    raise Undetermined('extend with an unknown sequence')
                live = [s]
                for x in items:
                    nxt = []
                    for s2 in live:
                        for r, s3 in self.call_mixin(v, 'append', [x], {}, s2, node) if c.find_method('append') is None else \
                                self.call_func(c.find_method('append'), [v, x], {}, s2, node):
                            if is_raise(r):
                                out.append((r, s3))
                            else:
                                nxt.append(s3)
                    live = nxt
                out.extend((NONE, s2) for s2 in live)
            return out
        if name in ('index', 'count', 'remove', 'pop') and c.find_method('__getitem__') and c.find_method('__iter__') is None and not kwargs:
            items, st = self.by_index(c.find_method('__getitem__'), v, st, node)[0]
            if name == 'pop':
                k = args[0] if args else C(-1)
                got = self.getitem(v, k, st, node)
            else:
                got = [self.position(('tup', items), 'count' if name == 'count' else 'index', args[0], st, node)]
                if got[0] is None:
                    raise Undetermined('unknown position')
                k = got[0][0]
            if name in ('index', 'count') or any(is_raise(r) for r, _ in got):
                return got
            out = []
            for r, s in got:
                for r2, s2 in self.call_func(c.find_method('__delitem__'), [v, k], {}, s, node):
                    out.append((r2 if is_raise(r2) else r if name == 'pop' else NONE, s2))
            return out
        return super().call_mixin(v, name, args, kwargs, st, node)

    def binop(self, op, a, b, st, node, fr):
        if isinstance(op, ast.Mod) and is_c(a) and isinstance(a[2], str):
            vals = b[1] if b[0] == 'tup' else (b,)
            if all(is_c(x) for x in vals) and not ('%r' in a[2] and any(isinstance(x[2], str) and holes(x[2]) for x in vals)):
                try:
                    return [(C(a[2] % tuple(x[2] for x in vals)), st)]
                except (TypeError, ValueError) as err:
                    return [(self.exc(type(err).__name__, node), st)]
        if isinstance(op, ast.Mult) and is_c(a) and is_c(b):
            return [(C(a[2] * b[2]), st)]
        for x, n in ((a, b), (b, a)) if isinstance(op, ast.Mult) else ():
            if is_c(n) and isinstance(n[2], int) and x[0] == 'tup':
                return [(('tup', x[1] * n[2]), st)]
            if is_c(n) and isinstance(n[2], int) and x[0] == 'o' and st.heap[x[1]].kind == 'list' and not any(map(is_gap, st.heap[x[1]].items)):
                s = st.fork()
                return [(s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=st.heap[x[1]].items * n[2], fresh=True)), s)]
        return super().binop(op, a, b, st, node, fr)

    def truth(self, v, st, node=None):
        if v[0] == 't' and v[1] in ('found', 'regex'):
            return [(True, st)]
        return super().truth(v, st, node)

    def ident(self, a, b, st, node):
        if a[0] == b[0] == 'fn' and a[2] is None and b[2] is None or a[0] == b[0] == 'cls':
            return [(B(a[1] == b[1]), st)]
        for x, y in ((a, b), (b, a)):
            if x[0] == 't' and x[1] in ('found', 'regex') and y == NONE:
                return [(FALSE, st)]
        return super().ident(a, b, st, node)

    def eq(self, a, b, st, node):
        for x, y in ((a, b), (b, a)):
            if x[0] == 't' and x[1] in ('found', 'id', 'regex') and y == NONE:
                return [(FALSE, st)]
            if x[0] == 't' and x[1] == 'char' and is_c(y) and isinstance(y[2], str) and len(y[2]) == 1 and not y[2].isalnum():
                return [(FALSE, st)]      # holes contain no separators
        if a[0] == 't' and b[0] == 't' and a[1] == b[1] == 'id' and a[2][0] == b[2][0] == 'o' and \
                not (st.heap[a[2][1]].weak or st.heap[b[2][1]].weak):
            return [(B(a[2] == b[2]), st)]
        return super().eq(a, b, st, node)

    def less(self, a, b, st, node):
        if any(is_c(x) and isinstance(x[2], str) and holes(x[2]) for x in (a, b)) and a != b:
            x, y = a[2], b[2]
            if isinstance(x, str) and isinstance(y, str):
                for c, d in zip(x, y):
                    if c != d:
                        if not holes(c + d):
                            return [(B(c < d), st)]
                        break
            return [(T('lt', a, b), st)]
        return super().less(a, b, st, node)

    def getitem(self, v, k, st, node):
        if v[0] == 't' and v[1] == 'found':
            return self.call_method(v, 'group', [k], {}, st, node)
        if v[0] == 'o' and st.heap[v[1]].kind == 'dict' and '@default' in st.heap[v[1]].attrs:
            out = []
            for r, s in self.dict_get(v[1], k, st, node, missing='KeyError'):
                if not is_raise(r):
                    out.append((r, s))
                    continue
                for d, s2 in self.call(st.heap[v[1]].attrs['@default'], [], {}, s, node, None):
                    if is_raise(d):
                        out.append((d, s2))
                        continue
                    for f, s3 in self.setitem(v, k, d, s2, node):
                        out.append((d if f is None else ('!raise',) + f[1:], s3))
            return out
        if is_c(v) and isinstance(v[2], str) and is_c(k) and isinstance(k[2], int):
            try:
                ch = v[2][k[2]]
            except IndexError:
                return [(self.exc('IndexError', node), st)]
            before = v[2][:k[2]] if k[2] >= 0 else v[2][k[2] % len(v[2]):]
            return [(T('char', v, k) if holes(ch) or holes(before) else C(ch), st)]
        return super().getitem(v, k, st, node)

    def slice(self, v, sl, st, node):
        if is_c(v) and isinstance(v[2], str) and holes(v[2]) and all(is_c(x) for x in sl):
            lo, hi, step = (x[2] for x in sl)
            cut = v[2]
            if self.letters or step is None and (lo is None or (not holes(cut[:lo]) if lo >= 0 else not holes(cut[lo:]))) and \
                    (hi is None or (not holes(cut[:hi]) if hi >= 0 else not holes(cut[hi:]))):
                return [(C(cut[lo:hi:step]), st)]
            return [(T('slice', v, *sl), st)]
        return super().slice(v, sl, st, node)

    # ------------------------------------------------------------- statements
    def st_With(self, x, fr, st):
        """The output of redirect_stdout goes to its file."""
        out = []
        if len(x.items) == 1 and isinstance(x.items[0].context_expr, ast.Call) and \
                ast.unparse(x.items[0].context_expr.func).endswith('redirect_stdout'):
            for v, s in self.ev(x.items[0].context_expr, fr, st):
                if is_raise(v) or v[0] != 't' or v[2][0] != 'o':
                    return super().st_With(x, fr, st)
                s = s.fork()
                saved = dict(s.heap[STDOUT].attrs)
                s.w(STDOUT).attrs['text'] = C('')
                for fl, s2 in self.block(x.body, fr, s):
                    s2 = s2.fork()
                    self.redirect(s2, v[2])
                    s2.w(STDOUT).attrs = dict(saved)
                    out.append((fl, s2))
            return out
        return super().st_With(x, fr, st)

    def st_For(self, x, fr, st):
        out = []
        for it, s in self.ev(x.iter, fr, st):
            if it[0] == 'o' and s.heap[it[1]].cls == '@file':
                out.extend(self.for_lines(x, it, fr, s))
            elif is_raise(it):
                out.append((('raise',) + it[1:], s))
            else:
                for items, s2 in self.iterate(it, s, x):
                    if items and items[0] == '!raise':
                        out.append((('raise',) + items[1:], s2))
                    else:
                        out.extend(self.for_items(x, items, fr, s2))
        return out

    def for_lines(self, x, fh, fr, st):
        out, live = [], [st]
        while live:
            nxt = []
            for s in live:
                o = s.heap[fh[1]]
                lines, pos = o.attrs['lines'][1], o.attrs['pos'][2]
                if pos >= len(lines):
                    out.extend(self.block(x.orelse, fr, s) if x.orelse else [(None, s)])
                    continue
                s = s.fork()
                s.w(fh[1]).attrs['pos'] = C(pos + 1)
                for fl, s2 in self.assign(x.target, lines[pos], fr, s):
                    for fl2, s3 in self.block(x.body, fr, s2):
                        if fl2 is None or fl2[0] == 'cont':
                            nxt.append(s3)
                        else:
                            out.append((None, s3) if fl2[0] == 'brk' else (fl2, s3))
            live = nxt
        return out
