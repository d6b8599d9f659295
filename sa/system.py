"""The exact interpreter with a model of the standard streams, files and the command line."""
import argparse
import ast
import fnmatch
import html
import os.path
import re
import string

from .absint import B, C, NONE, O, Obj, T, Undetermined, is_c, is_gap, is_raise
from .text import STDOUT, Text

STDIN, SYS, DISK = 'STDIN', '@sys', '@disk'
PURE = {'dirname', 'basename', 'join', 'split', 'splitext', 'isabs', 'normpath'}
OPENERS = {'gzip.open': 'gz', 'lzma.open': 'xz', 'bz2.open': 'bz2'}


def lines_of(text):
    return re.findall(r'[^\n]*\n|[^\n]+', text)


class System(Text):
    """disk: {name: text or (compression, text)}."""

    def __init__(self, *a, disk=(), stdin='', argv=(), **k):
        super().__init__(*a, **k)
        self.disk, self.stdin, self.argv = dict(disk), stdin, list(argv)
        self.parsed = {}

    def start(self):
        st = super().start()
        st.heap[STDIN] = self.file(self.stdin)
        st.heap[SYS] = Obj('inst', cls='@sys', attrs={'stdout': O(STDOUT), 'stdin': O(STDIN)})
        st.heap[DISK] = Obj('inst', cls='@disk', attrs={})
        return st

    @staticmethod
    def file(text):
        return Obj('inst', cls='@file', attrs={'pos': C(0), 'lines': ('tup', tuple(map(C, lines_of(text)))), 'closed': C(False)}, fresh=True)

    def written(self, st):
        """{file name: text} of what the program wrote."""
        return {k: st.heap[v[1]].attrs.get('text', C('')) for k, v in st.heap[DISK].attrs.items()}

    # ------------------------------------------------------------- streams
    def lookup(self, name, fr, st):
        v = super().lookup(name, fr, st)
        main = st.heap.get('@main')
        if main is not None and st.heap[fr].tag[0] is main.tag[0] and name in main.attrs and (v is None or v[0] in ('s', 't')):
            return main.attrs[name]
        if v is not None and v[0] == 's' and v[2] == 'obj' and v[1].endswith('.' + name):
            return self.literal(v, st)
        return v

    def literal(self, v, st):
        """A global dict or list of constants."""
        oid = '@global ' + v[1]
        if oid in st.heap:
            return O(oid)
        module, _, name = v[1].rpartition('.')
        module = self.p.modules.get(module)
        binding = module.names.get(name) if module is not None else None
        if not binding or not isinstance(binding[1], ast.Assign):
            return v
        try:
            value = ast.literal_eval(binding[1].value)
        except ValueError:
            return v
        if isinstance(value, dict) and all(isinstance(x, (str, int)) for kv in value.items() for x in kv):
            st.heap[oid] = Obj('dict', items=tuple((C(k), C(x)) for k, x in value.items()))
            return O(oid)
        return v

    def getattr(self, v, name, st, node):
        if v == ('ext', 'sys') and name in st.heap[SYS].attrs:
            return [(st.heap[SYS].attrs[name], st)]
        if v == ('ext', 'os') and name in ('sep', 'linesep'):
            return [(C(getattr(os, name)), st)]
        if v[0] == 'o' and st.heap[v[1]].cls == '@file' and name == 'buffer':
            return [(v, st)]
        if v[0] == 'o' and st.heap[v[1]].cls == '@file' and name == 'closed':
            return [(st.heap[v[1]].attrs.get('closed', C(False)), st)]
        if v[0] == 't' and v[1] in ('path', 'argparser'):
            return [(v if name == 'parent' else ('bm', v, name), st)]
        return super().getattr(v, name, st, node)

    def setattr(self, v, name, val, st, node, fr=None):
        if v == ('ext', 'sys'):
            s = st.fork()
            s.w(SYS).attrs[name] = val
            return [(None, s)]
        return super().setattr(v, name, val, st, node, fr)

    def write(self, s, to, text, node):
        if to == NONE:
            to = s.heap[SYS].attrs['stdout']
        super().write(s, to, text, node)

    def file_method(self, v, name, args, st, node):
        if st.heap[v[1]].attrs.get('closed') == C(True) and name not in ('close', 'getvalue'):
            return [(self.exc('ValueError', node), st)]
        if name == 'close' and v[1] not in (STDOUT, STDIN):
            s = st.fork()
            s.w(v[1]).attrs['closed'] = C(True)
            return [(NONE, s)]
        return super().file_method(v, name, args, st, node)

    def open(self, args, kwargs, st, node, kind=None):
        mode = args[1] if len(args) > 1 else kwargs.get('mode', C('r'))
        if args[0][0] == 'o':
            return [(self.exc('TypeError', node), st)]
        if not is_c(args[0]) or not is_c(mode):
            raise Undetermined('a file with an unknown name is opened')
        name = args[0][2]
        s = st.fork()
        if 'w' in mode[2] or 'a' in mode[2]:
            v = s.new(f'OUT@{name}', Obj('inst', cls='@file', attrs={'pos': C(0), 'lines': ('tup', ()), 'closed': C(False)}, fresh=True))
            s.w(DISK).attrs[name] = v
            return [(v, s)]
        if name not in self.disk:
            return [(self.exc('FileNotFoundError', node), st)]
        content = self.disk[name]
        has, text = content if isinstance(content, tuple) else (None, content)
        if has != kind:
            return [(self.exc('UnicodeDecodeError' if has else 'OSError', node), st)]
        return [(s.new(f'IN@{name}', self.file(text)), s)]

    def iterate(self, it, st, node):
        if it[0] == 'o' and st.heap[it[1]].cls == '@file':
            o = st.heap[it[1]]
            s = st.fork()
            s.w(it[1]).attrs['pos'] = C(len(o.attrs['lines'][1]))
            return [(o.attrs['lines'][1][o.attrs['pos'][2]:], s)]
        return super().iterate(it, st, node)

    def to_str(self, v, st, node):
        if v[0] == 'tup' or v[0] == 'o' and st.heap[v[1]].kind in ('list', 'dict') and st.heap[v[1]].cls is None:
            try:
                text = repr(self.to_python(v, st))
            except ValueError:
                return super().to_str(v, st, node)
            if '\\u' not in text:
                return [(C(text if v[0] != 'tup' else '(' + text[1:-1] + (',)' if len(v[1]) == 1 else ')')), st)]
        return super().to_str(v, st, node)

    # ------------------------------------------------------------- code given as text
    def code(self, text, mode):
        key = text, mode
        if key not in self.parsed:
            try:
                self.parsed[key] = ast.parse(text.strip(), mode=mode)
            except SyntaxError:
                self.parsed[key] = None
        return self.parsed[key]

    def st_Import(self, x, fr, st):
        if isinstance(x, ast.ImportFrom) and (x.module or '').startswith('udapi.') and x.module not in self.p.modules:
            return [(('raise', self.exc('ModuleNotFoundError', x)[1]), st)]
        return super().st_Import(x, fr, st)

    st_ImportFrom = st_Import

    def call_builtin(self, name, args, kwargs, st, node, fr):
        if name == 'locals' and not args and fr is not None:
            s = st.fork()
            items = tuple((C(k), x) for k, x in st.heap[fr].attrs.items() if isinstance(k, str) and k.isidentifier())
            return [(s.new(f'LOC{node.lineno}', Obj('dict', items=items, fresh=True)), s)]
        if name in ('exec', 'eval') and len(args) == 1 and is_c(args[0]) and isinstance(args[0][2], str) and fr is not None:
            tree = self.code(args[0][2], name)
            if tree is None:
                return [(self.exc('SyntaxError', node), st)]
            if name == 'eval':
                return self.ev(tree.body, fr, st)
            return [(('!raise',) + fl[1:] if fl is not None and fl[0] == 'raise' else NONE, s) for fl, s in self.block(tree.body, fr, st)]
        if name == 'open' and args:
            return self.open(args, kwargs, st, node)
        return super().call_builtin(name, args, kwargs, st, node, fr)

    # ------------------------------------------------------------- modules of the standard library
    def call_ext(self, name, args, kwargs, st, node):
        if name == 'html.escape' and args and all(map(is_c, args)) and all(map(is_c, kwargs.values())) and isinstance(args[0][2], str):
            return [(C(html.escape(*[a[2] for a in args], **{k: x[2] for k, x in kwargs.items()})), st)]
        if name in OPENERS and args:
            return self.open(args, kwargs, st, node, OPENERS[name])
        if name == 'io.TextIOWrapper' and args:
            return [(args[0], st)]
        if name == 'glob.glob' and len(args) == 1 and is_c(args[0]):
            found = [C(f) for f in sorted(self.disk, reverse=True) if fnmatch.fnmatchcase(f, args[0][2]) and f.count('/') == args[0][2].count('/')]
            s = st.fork()
            return [(s.new(f'GL{node.lineno}', Obj('list', items=tuple(found), fresh=True)), s)]
        if name.startswith('os.path.') and name[8:] in PURE and args and all(is_c(a) for a in args):
            try:
                r = getattr(os.path, name[8:])(*[a[2] for a in args])
            except TypeError:
                return [(self.exc('TypeError', node), st)]
            return [(('tup', tuple(map(C, r))) if isinstance(r, tuple) else C(r), st)]
        if name == 'pathlib.Path':
            return [(T('path', *args), st)]
        if name in ('itertools.chain.from_iterable', 'itertools.chain'):
            return self.chain(args if name.endswith('chain') else None, args[0], st, node)
        if name == 'argparse.ArgumentParser':
            s = st.fork()
            s.heap['@options'] = Obj('list', items=())
            return [(T('argparser'), s)]
        if name == 'termcolor.colored' and args:
            return [(args[0], st)]       # colours take no space
        if name.startswith('colorama.'):
            return [(NONE, st)]
        if name.startswith(('gc.', 'atexit.')):
            return [(NONE, st)]
        return super().call_ext(name, args, kwargs, st, node)

    def chain(self, parts, outer, st, node):
        todo = [(parts, st)] if parts is not None else self.iterate(outer, st, node)
        out = []
        for items, s in todo:
            if items and items[0] == '!raise':
                out.append((items, s))
                continue
            acc = [((), s)]
            for x in items:
                nxt = []
                for got, s2 in acc:
                    for more, s3 in self.iterate(x, s2, node):
                        if more and more[0] == '!raise':
                            out.append((more, s3))
                        elif any(map(is_gap, more)):
                            raise Undetermined('a chain of unknown parts')
                        else:
                            nxt.append((got + tuple(more), s3))
                acc = nxt
            out.extend((('seq', got), s2) for got, s2 in acc)
        return out

    def call_method(self, v, name, args, kwargs, st, node, *rest):
        if is_c(v) and isinstance(v[2], str) and name == 'format' and all(map(is_c, args)):
            used = {f[1].partition('.')[0].partition('[')[0] for f in string.Formatter().parse(v[2]) if f[1] is not None}
            if all(is_c(kwargs[k]) for k in used if k in kwargs):
                try:
                    return [(C(v[2].format(*[a[2] for a in args], **{k: kwargs[k][2] for k in used if k in kwargs})), st)]
                except (KeyError, IndexError, ValueError) as err:
                    return [(self.exc(type(err).__name__, node), st)]
        if v[0] == 't' and v[1] == 'path':
            return [(NONE, st)]
        if v[0] == 't' and v[1] == 'argparser':
            if name == 'add_argument':
                s = st.fork()
                o = s.w('@options')
                o.items = o.items + (('tup', (('tup', tuple(args)), ('tup', tuple(('tup', (C(k), x)) for k, x in kwargs.items())))),)
                return [(NONE, s)]
            if name == 'parse_args':
                return self.parse_args(st, node)
            return [(NONE, st)]
        return super().call_method(v, name, args, kwargs, st, node, *rest)

    def parse_args(self, st, node):
        """What argparse makes of the command line, with the options that were added."""
        parser = argparse.ArgumentParser(exit_on_error=False)
        for entry in st.heap['@options'].items:
            names, kw = entry[1]
            values = {}
            for pair in kw[1]:
                k, x = pair[1]
                if is_c(x):
                    values[k[2]] = x[2]
                elif x[0] == 'ext' and x[1] == 'argparse.REMAINDER':
                    values[k[2]] = argparse.REMAINDER
                elif k[2] != 'help':
                    raise Undetermined('an option with unknown properties')
            parser.add_argument(*[a[2] for a in names[1]], **values)
        s = st.fork()
        attrs = {}
        for k, x in vars(parser.parse_args(self.argv)).items():
            attrs[k] = s.new(f'ARG{k}', Obj('list', items=tuple(map(C, x)), fresh=True)) if isinstance(x, list) else C(x)
        return [(s.new('ARGS', Obj('inst', cls='@args', attrs=attrs, fresh=True)), s)]

    # ------------------------------------------------------------- scripts
    def script(self, module, st):
        """Run a module as the main program."""
        st = st.fork()
        st.heap['@main'] = Obj('frame', attrs={'__name__': C('__main__')}, tag=(module, None, None))
        self.stack.append(module.name)
        try:
            return self.block([x for x in module.tree.body if not isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))],
                              '@main', st)
        finally:
            self.stack.pop()
