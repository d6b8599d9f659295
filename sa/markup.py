"""Which text of the document reaches which place of the printed markup.

Abstract interpreter over string-building code.  A string value is a regular expression over literal pieces and
"data" pieces; a data piece carries the set of markup characters that may still be in it:

    ('L', text)                  literal
    ('D', flags, origin)         text from outside; flags = characters that may occur ('<'), and 'u'+c for characters
                                 that may occur without a backslash in front
    ('C', (v, ...))  ('A', {v})  ('S', v)      sequence, alternatives, repetition
    ('T', (v, ...))              tuple with known elements
    ('O', Class)                 object of a class of the project
    ('LAM', node) ('FN', Func)   callables

Containers are represented by what their elements can be.  The printed output is followed by a lexer for HTML/XML,
JSON in scripts, and TeX; its states are joined over paths, and each function is interpreted per entry state.
"""
import ast
import re
import string

from .project import Class, Func, Module
from .util import Scopes, default_of

DANGER = '<>&"\'\\%#_${}^~ '
RAW = frozenset(DANGER) | {'u' + c for c in DANGER}
TEXCMD = r'\\[a-zA-Z]+(\{\})?'
NUM = ('D', frozenset(), '')
EMPTY = ('L', '')
NUMERIC_ATTRS = {'ord', 'no_space_after', 'bundle_number'}
SAME_STR = {'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'title', 'capitalize', 'ljust', 'rjust', 'center', 'split',
            'rsplit', 'splitlines', 'partition', 'rpartition', 'swapcase', 'zfill', 'expandtabs', 'casefold', 'encode',
            'decode', 'copy', 'values', 'keys', 'get', 'pop', 'removeprefix', 'removesuffix', 'popleft', 'most_common'}
NOT_TEXT = {'startswith', 'endswith', 'isdigit', 'isdecimal', 'isalpha', 'isspace', 'count', 'find', 'index', 'rfind', 'is_root',
            'is_empty', 'is_leaf', 'is_descendant_of', 'is_nonprojective', 'precedes', 'isatty'}
NUM_BUILTINS = {'len', 'int', 'float', 'sum', 'abs', 'any', 'all', 'bool', 'hash', 'id', 'round', 'isinstance', 'hasattr',
                'ord', 'range', 'callable'}
SAME_BUILTINS = {'str', 'repr', 'list', 'tuple', 'set', 'sorted', 'reversed', 'iter', 'next', 'frozenset', 'min', 'max',
                 'dict', 'format', 'ascii'}


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values

def lit(s):
    if s and not s.strip():
        s = '\n' if '\n' in s else ' '
    return ('L', s)


def depth(v):
    if v[0] == 'C':
        return v[2]
    if v[0] == 'A':
        return v[2]
    if v[0] == 'S':
        return v[2]
    if v[0] == 'T':
        return 1 + max([depth(x) for x in v[1]], default=0)
    return 0


def atoms(v, out=None):
    out = set() if out is None else out
    if v[0] in 'LD' and len(v[0]) == 1:
        out.add(v)
    elif v[0] in ('C', 'A', 'T'):
        for x in v[1]:
            atoms(x, out)
    elif v[0] == 'S':
        atoms(v[1], out)
    return out


def widen(v):
    return star(alt(atoms(v)))


def cat(*vs):
    flat = []
    for v in vs:
        if v[0] == 'C':
            flat.extend(v[1])
        else:
            flat.append(v)
    out, number = [], False
    for v in flat:
        if v == EMPTY or v[0] == 'D' and not v[1]:
            number = number or v != EMPTY
            continue
        if v[0] == 'L' and out and out[-1][0] == 'L' and len(out[-1][1]) + len(v[1]) < 20000:
            out[-1] = lit(out[-1][1] + v[1])
        else:
            out.append(v)
    if not out:
        return NUM if number else EMPTY
    if len(out) == 1:
        return out[0]
    d = 1 + max(depth(x) for x in out)
    if d > 14 or len(out) > 200:
        return widen(('C', tuple(out), d))
    return ('C', tuple(out), d)


def alt(vs):
    flat = set()
    for v in vs:
        if v[0] == 'A':
            flat |= v[1]
        else:
            flat.add(v)
    flat = {NUM if x[0] == 'D' and not x[1] else x for x in flat}
    if NUM in flat:
        flat.discard(EMPTY)
    if len(flat) == 1:
        return next(iter(flat))
    if not flat:
        return NUM
    d = 1 + max(depth(x) for x in flat)
    if d > 14 or len(flat) > 60:
        return widen(('A', frozenset(flat), 0))
    return ('A', frozenset(flat), d)


def star(v):
    if v[0] == 'S' or v == EMPTY or v == NUM:
        return v
    d = 1 + depth(v)
    return ('S', v, d)


def raw(origin):
    return ('D', RAW, origin)


def flags_of(v):
    out = set()
    for a in atoms(v):
        if a[0] == 'D':
            out |= a[1]
        else:
            out |= {c for c in a[1] if c in DANGER} | {'u' + c for c in a[1] if c in DANGER}
    return frozenset(out)


def elem(v):
    if v[0] == 'T':
        return alt(v[1])
    if v[0] == 'A':
        return alt([elem(x) for x in v[1]])
    if v[0] == 'S' and has_tuple(v[1]):
        return v[1]
    return v


def has_tuple(v):
    return v[0] == 'T' or v[0] == 'A' and any(x[0] == 'T' for x in v[1])


def list_add(old, items, looping):
    """The list old with items appended (repeatedly, in a loop)."""
    if old[0] == 'A':
        return alt([list_add(o, items, looping) for o in old[1]])
    if old[0] != 'T':
        return alt([old, *items])
    xs = list(old[1])
    if not looping:
        return ('T', tuple(xs + list(items))) if len(xs) < 60 else elem(old)
    new = alt(items) if items else EMPTY
    if xs and xs[-1][0] == 'S':
        xs[-1] = star(alt([xs[-1][1], new]))
    else:
        xs.append(star(new) if new not in (EMPTY, NUM) else new)
        if new in (EMPTY, NUM) and len(xs) > 1 and xs[-2] == new:
            xs.pop()
    return ('T', tuple(xs))


def join_list(v, sep):
    if v[0] == 'A':
        return alt([join_list(x, sep) for x in v[1]])
    if v[0] == 'T':
        out = []
        for i, x in enumerate(v[1]):
            if i and sep != EMPTY:
                out.append(sep)
            if x[0] == 'S':
                out.append(star(cat(x[1] if x[1][0] != 'T' else alt(x[1][1]), sep)))
            elif x[0] == 'T':
                out.append(alt(x[1]))
            elif x[0] in ('L', 'D', 'C', 'A'):
                out.append(x)
        return cat(*out)
    if v[0] in ('L', 'D', 'C', 'S'):
        return star(alt([v, sep])) if sep != EMPTY else star(v)
    return NUM


def seq(v):
    """A container whose elements are v."""
    return star(v) if has_tuple(v) else v


def map_pieces(v, fn):
    if v[0] in ('L', 'D'):
        return fn(v)
    if v[0] == 'C':
        return cat(*[map_pieces(x, fn) for x in v[1]])
    if v[0] == 'A':
        return alt([map_pieces(x, fn) for x in v[1]])
    if v[0] == 'S':
        return star(map_pieces(v[1], fn))
    if v[0] == 'T':
        return ('T', tuple(map_pieces(x, fn) for x in v[1]))
    return v


def drop(flags, chars):
    return frozenset(f for f in flags if f not in chars and not (f[0] == 'u' and len(f) == 2 and f[1] in chars))


def replace_char(v, c, s):
    """v.replace(c, s) for a constant single character c and constant s."""
    def piece(x):
        if x[0] == 'L':
            return lit(x[1].replace(c, s))
        f = x[1]
        if c not in f:
            return x
        new = set(f)
        if c == '\\':
            # doubling backslashes undoes every escape made before
            for g in f:
                if len(g) == 1 and g != '\\' and 'u' + g not in f:
                    new.add('u' + g)
        if c not in s or c == '&' and re.fullmatch(r'&#?\w+;', s):
            new -= {c, 'u' + c}
        elif s == c:
            pass
        elif c == '\\' and (s == '\\\\' or re.fullmatch(TEXCMD, s)):
            new.discard('u\\')
        elif c != '\\' and all(i and s[i - 1] == '\\' for i, ch in enumerate(s) if ch == c):
            new.discard('u' + c)
        elif c != '\\' and s.startswith('{') and s.endswith('}'):
            new.discard('u' + c)
        if '&' in s and s.endswith(';'):
            new.add('+ent')
        return ('D', frozenset(new), x[2])
    return map_pieces(v, piece)


def html_escape(v, quote=True, apos=True):
    def piece(x):
        if x[0] == 'L':
            s = x[1].replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            if quote:
                s = s.replace('"', '&quot;')
                if apos:
                    s = s.replace("'", '&#x27;')
            return lit(s)
        f = drop(x[1], '<>&')
        if quote:
            f = drop(f, '"\'' if apos else '"')
        if x[1]:
            f = f | {'+ent'}
        return ('D', f, x[2])
    return map_pieces(v, piece)


# ---------------------------------------------------------------- lexer

CLOSED = {'start', 'text', 'json', 'plain', 'tex', 'tex%'}


def lex(q, s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if q == 'plain':
            return q
        if q == 'start':
            if c.isspace() or c == '\ufeff':
                i += 1
                continue
            q = {'<': 'text', '\\': 'tex', '%': 'tex', '[': 'json', '{': 'json'}.get(c, 'plain')
            continue
        if q == 'text':
            if c == '<':
                if s.startswith('<!--', i):
                    q = 'comment'
                    i += 4
                    continue
                m = re.match(r'</?([A-Za-z][\w:-]*|[!?][\w:-]*)?', s[i:])
                name = (m.group(1) or '').lower()
                if s.startswith('</', i):
                    name = ''
                q = {'script': 'tagx', 'style': 'tags'}.get(name, 'tag')
                i += m.end()
                continue
            i += 1
            continue
        if q == 'comment':
            j = s.find('-->', i)
            if j < 0:
                return q
            q, i = 'text', j + 3
            continue
        if q in ('tag', 'tagx', 'tags'):
            if c in '"\'':
                q = q + c
            elif c == '>':
                q = {'tag': 'text', 'tagx': 'script', 'tags': 'style'}[q]
            i += 1
            continue
        if q[:3] == 'tag':
            if c == q[-1]:
                q = q[:-1]
            i += 1
            continue
        if q == 'style':
            if s.lower().startswith('</style', i):
                q, i = 'tag', i + 7
                continue
            i += 1
            continue
        if q in ('script', 'json'):
            if q == 'script' and s.lower().startswith('</script', i):
                q, i = 'tag', i + 8
                continue
            if s.startswith('//', i) and q == 'script':
                q = 'script//'
            elif c in '"\'' and not (q == 'json' and c == "'"):
                q = q + c
            i += 1
            continue
        if q == 'script//':
            if c == '\n':
                q = 'script'
            i += 1
            continue
        if q[-1] == '\\' and q[:4] in ('scri', 'json', 'tex\\'):
            q = q[:-1]
            i += 1
            continue
        if q[:6] == 'script' or q[:4] == 'json':
            base = q[:-1]
            if s.lower().startswith('</script', i) and base == 'script':
                q, i = 'tag', i + 8
                continue
            if c == '\\':
                q += '\\'
            elif c == q[-1] or c == '\n':
                q = base
            i += 1
            continue
        if q == 'tex':
            if c == '\\':
                q = 'tex\\'
            elif c == '%':
                q = 'tex%'
            i += 1
            continue
        if q == 'tex%':
            if c == '\n':
                q = 'tex'
            i += 1
            continue
        raise Unsupported('lexer state ' + q)
    return q


PLACE = {'text': 'text', 'tag': 'a tag', 'tagx': 'a tag', 'tags': 'a tag', 'script': 'script code', 'style': 'a style sheet',
         'json': 'JSON', 'comment': 'a comment', 'tex': 'TeX text'}


def bad_in(q, f):
    """Characters of data with flags f that change the meaning of the markup when printed in lexer state q."""
    def chars(cs):
        return [c for c in cs if c in f]
    if q in ('start', 'plain', 'script//', 'tex%'):
        return []
    if q in ('text', 'comment'):
        return chars('<&')
    if q in ('tag', 'tagx', 'tags'):
        return chars('<>&"\' ')
    if q[:3] == 'tag':
        return chars('&' + q[-1])
    if q == 'style':
        return chars('<{}')
    if q in ('script', 'json'):
        return chars('"\'\\<')
    if q[:6] == 'script':
        return chars('<') + [c for c in (q[-1], '\\') if 'u' + c in f]
    if q[:4] == 'json':
        return [c for c in ('"', '\\') if 'u' + c in f]
    if q == 'tex':
        return [c for c in '\\%#&_${}^~' if 'u' + c in f]
    return []


_cache = {}


def run(v, q):
    """(exit states, problems) of printing v in lexer state q."""
    key = (v, q)
    hit = _cache.get(key)
    if hit is not None:
        return hit
    k = v[0]
    if k == 'L':
        out = (frozenset([lex(q, v[1])]), frozenset())
    elif k == 'D':
        cs = bad_in(q, v[1])
        q2 = q
        if q == 'start':
            q2 = 'plain' if v[1] else 'start'
        place = PLACE.get(q) or (PLACE.get(q.rstrip('\\')[:-1], q) + ' inside ' + ('double' if q[-1] == '"' else 'single') + ' quotes')
        out = (frozenset([q2]), frozenset([(v[2], place, ' '.join(cs))]) if cs else frozenset())
    elif k == 'C':
        qs, ps = frozenset([q]), frozenset()
        for x in v[1]:
            nq = frozenset()
            for y in qs:
                e, p = run(x, y)
                nq |= e
                ps |= p
            qs = nq
        out = (qs, ps)
    elif k in ('A', 'T'):
        qs, ps = frozenset(), frozenset()
        for x in v[1]:
            e, p = run(x, q)
            qs |= e
            ps |= p
        out = (qs, ps)
    elif k == 'S':
        qs, ps, todo = {q}, frozenset(), [q]
        while todo:
            e, p = run(v[1], todo.pop())
            ps |= p
            for y in e:
                if y not in qs:
                    qs.add(y)
                    todo.append(y)
        out = (frozenset(qs), ps)
    else:
        out = (frozenset([q]), frozenset())
    _cache[key] = out
    return out


# ---------------------------------------------------------------- interpreter

class St:
    __slots__ = ('env', 'outs')

    def __init__(self, env, outs):
        self.env, self.outs = env, outs

    def copy(self):
        return St(dict(self.env), self.outs)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k in [k for k in env if isinstance(k, tuple) and k not in b.env]:
        del env[k]
    for k, v in b.env.items():
        if isinstance(k, tuple) and k[0] == 'expr' and k not in a.env:
            continue
        if k == 'OUTS' or v[0] == 'OUTS':
            env[k] = v
            continue
        env[k] = alt([env[k], v]) if k in env and env[k] != v else v
    return St(env, a.outs | b.outs)


class Result:
    def __init__(self):
        self.value, self.outs = None, frozenset()


class Writer:
    """Interpretation of one concrete writer class."""

    def __init__(self, project, cls, scopes=None):
        self.p, self.cls = project, cls
        self.sc = scopes or Scopes(project)
        self.store = {}       # (class qual, attr) -> (set of values, accumulated?)
        self.changed = False
        self.problems = {}    # (func, line, origin, place) -> chars
        self.prints = set()
        self.unclosed = {}
        self.memo = {}
        self.active = {}
        self.states_seen = set()
        self.twice = {}

    # -- driver
    def interpret(self, entry=('before_process_document', 'process_document', 'after_process_document')):
        for _ in range(12):
            self.changed = False
            self.memo.clear()
            self.problems.clear()
            self.unclosed.clear()
            self.twice.clear()
            init = self.cls.find_method('__init__')
            if init is not None:
                self.call(init, self.cls, None, {}, frozenset(['start']), config=True)
            outs = frozenset(['start'])
            for name in entry:
                f = self.cls.find_method(name)
                if f is None:
                    continue
                _, outs = self.call(f, self.cls, [raw(p) for p in f.params[1:]], {}, outs)
            if not self.changed:
                break
        left = outs - CLOSED
        if left:
            self.unclosed[(self.cls.qual, 'end of the document')] = left
        return outs

    # -- calls
    def call(self, f, cls, args, kwargs, outs, config=False, env0=None):
        params = f.params
        node = f.node
        bound = {}
        rest = list(params)
        if f.cls is not None and not f.is_static and rest:
            bound[rest.pop(0)] = ('O', cls if cls is not None else f.cls)
        if config:
            for p_ in rest + [a.arg for a in node.args.kwonlyargs]:
                d = default_of(node, p_)
                bound[p_] = alt([NUM, self.const(d, f)]) if d is not None else NUM
        else:
            args = args or []
            for p_, a in zip(rest, args):
                bound[p_] = a
            for k, v in kwargs.items():
                if k in rest or any(a.arg == k for a in node.args.kwonlyargs):
                    bound[k] = v
            for p_ in rest + [a.arg for a in node.args.kwonlyargs]:
                if p_ not in bound:
                    d = default_of(node, p_)
                    bound[p_] = self.const(d, f) if d is not None else NUM
            if node.args.vararg:
                bound[node.args.vararg.arg] = alt(args[len(rest):]) if len(args) > len(rest) else NUM
        if node.args.kwarg:
            bound[node.args.kwarg.arg] = NUM
        key = (f.qual, cls.qual if cls else None, tuple(sorted(bound.items(), key=lambda kv: kv[0])), outs)
        try:
            hash(key)
        except TypeError as e:
            raise Unsupported('unhashable value') from e
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            self.active[key][1] = True
            return self.active[key][0]
        if len(self.active) > 40:
            return (NUM, outs)
        best = (None, frozenset())
        while True:
            self.active[key] = [(best[0] if best[0] is not None else EMPTY, best[1]), False]
            r = Run(self, f, cls)
            st = St(dict(bound), outs)
            if env0:
                st.env = {**env0, **st.env}
            if isinstance(node, ast.Lambda):
                v = r.ev(node.body, st)
                res = (v, st.outs)
            else:
                end = r.block(node.body, st)
                vals = [v for v, _ in r.returns] + r.yields
                eo = frozenset().union(*[o for _, o in r.returns]) if r.returns else frozenset()
                if end is not None:
                    eo |= end.outs
                    if not r.yields:
                        vals.append(('L', 'None'))
                res = (alt(vals) if vals else EMPTY, eo)
            used = self.active[key][1]
            del self.active[key]
            if not used or (res[0], res[1]) == best:
                break
            best = (res[0], res[1] | best[1])
            if len(self.active) > 60:
                break
        self.memo[key] = res
        return res

    def const(self, node, f):
        r = Run(self, f, None)
        return r.ev(node, St({}, frozenset(['start'])))

    # -- attributes of self
    def remember(self, cls, attr, v, acc=False):
        key = (cls.qual, attr)
        vals, a = self.store.get(key, (frozenset(), False))
        if len(vals) > 40:
            v = widen(v)
        if v not in vals or (acc and not a):
            self.store[key] = (vals | {v}, a or acc)
            self.changed = True
            self.memo.clear()

    def attr(self, cls, name):
        key = (cls.qual, name)
        if key in self.store:
            vals, acc = self.store[key]
            return star(alt(vals)) if acc else alt(vals)
        hit = cls.lookup(name)
        if hit and hit[0] == 'attr':
            return Run(self, None, None, hit[2].module).ev(hit[1], St({}, frozenset(['start'])))
        return None


class Run:
    """One function body."""

    def __init__(self, w, f, cls, module=None):
        self.w, self.f, self.cls = w, f, cls
        self.module = module or f.module
        self.returns, self.yields = [], []
        self.loops = []

    # -- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported(f'statement {k} in {self.f.qual}')
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Assert = s_ClassDef = s_Pass

    def s_Delete(self, s, st):
        return st

    def s_FunctionDef(self, s, st):
        st.env[s.name] = ('LAM', s)
        return st

    def s_Raise(self, s, st):
        return None

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else ('L', 'None')
        self.returns.append((v, st.outs))
        return None

    def s_Continue(self, s, st):
        self.loops[-1][0].append(st)
        return None

    def s_Break(self, s, st):
        self.loops[-1][1].append(st)
        return None

    def s_If(self, s, st):
        self.ev(s.test, st)
        a = self.block(s.body, self.refine(s.test, True, st.copy()))
        b = self.block(s.orelse, self.refine(s.test, False, st.copy()))
        return join(a, b)

    def refine(self, test, val, st):
        """x in CONSTANTS, x == 'constant'"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not val, st)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == val:
            for v in test.values:
                st = self.refine(v, val, st)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            if isinstance(op, (ast.In, ast.Eq) if val else (ast.NotIn, ast.NotEq)):
                c = self.text(elem(self.ev(test.comparators[0], st)))
                one = isinstance(op, (ast.Eq, ast.NotEq))
                if all(a[0] == 'L' for a in atoms(c)) and atoms(c) and (one or not self.is_text(test.comparators[0], st)):
                    st.env[('expr', ast.unparse(test.left))] = c
                    if isinstance(test.left, ast.Name):
                        st.env[test.left.id] = c
        return st

    def is_text(self, node, st):
        return isinstance(node, ast.Constant)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        before = st.copy()
        end = self.block(s.body, st)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        out = end
        for h in s.handlers:
            hs = join(before.copy(), end.copy() if end is not None else None)
            if h.name:
                hs.env[h.name] = NUM
            out = join(out, self.block(h.body, hs))
        if s.finalbody and out is not None:
            out = self.block(s.finalbody, out)
        elif s.finalbody:
            self.block(s.finalbody, before.copy())
        return out

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def s_For(self, s, st):
        it = self.iterable(s.iter, st)
        return self.loop(s, st, it)

    def loop(self, s, st, it):
        head = st.copy()
        strong = self.strong_targets(s)
        result = None
        for n in range(24):
            cur = head.copy()
            self.loops.append(([], []))
            if it is not None:
                self.bind(s.target, it, cur)
            else:
                self.ev(s.test, cur)
            after = self.block(s.body, cur)
            conts, breaks = self.loops.pop()
            for c in conts:
                after = join(after, c)
            new = join(head.copy(), after.copy() if after is not None else None)
            for name in strong:      # each index is visited once
                if name in head.env:
                    new.env[name] = head.env[name]
            if n >= 4:
                for k in new.env:
                    if new.env[k] != head.env.get(k):
                        new.env[k] = widen(new.env[k]) if new.env[k][0] in ('C', 'A', 'S', 'L') else new.env[k]
            stable = new.outs == head.outs and new.env == head.env
            result = (head, after, breaks)
            if stable:
                break
            head = new
        else:
            raise Unsupported(f'loop does not converge in {self.f.qual}:{s.lineno}')
        head, after, breaks = result
        out = head.copy()
        if after is not None:
            for name in strong:
                if name in after.env:
                    out.env[name] = after.env[name]
        out = self.block(s.orelse, out) if s.orelse else out
        for b in breaks:
            out = join(out, b)
        return out

    @staticmethod
    def strong_targets(s):
        """Local lists whose element is replaced unconditionally for every index the loop runs over."""
        if not isinstance(s, ast.For):
            return set()
        loopvars = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        out = set()
        for st in s.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and \
                                isinstance(t.slice, ast.Name) and t.slice.id in loopvars:
                            out.add(t.value.id)
        return out

    def s_Assign(self, s, st):
        if self.stdout_assign(s, st):
            return st
        v = self.ev(s.value, st)
        for t in s.targets:
            self.bind(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        if not isinstance(s.op, ast.Add):
            if isinstance(t, ast.Name) and not isinstance(s.op, (ast.Mod, ast.Mult)):
                st.env[t.id] = alt([st.env.get(t.id, NUM), v]) if isinstance(s.op, ast.BitOr) else NUM
            return st
        if isinstance(t, ast.Name):
            old = st.env.get(t.id, EMPTY)
            if old[0] == 'T' or old[0] == 'A' and any(x[0] == 'T' for x in old[1]):
                items = list(v[1]) if v[0] == 'T' else [star(elem(v))]
                st.env[t.id] = list_add(old, items, bool(self.loops))
                return st
            st.env[t.id] = self.accumulate(old, v) if self.loops else cat(old, v)
        else:
            base = t.value if isinstance(t, ast.Subscript) else t
            self.store_into(base, v, st, acc=True)
        return st

    @staticmethod
    def accumulate(old, v):
        def add(o):
            if o[0] == 'C' and o[1][-1][0] == 'S':
                return cat(*o[1][:-1], star(alt([o[1][-1][1], v])))
            if o[0] == 'S':
                return star(alt([o[1], v]))
            return cat(o, star(v))
        if old[0] == 'A':
            return alt([add(o) for o in old[1]])
        return add(old)

    def stdout_assign(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Attribute) and t.attr == 'stdout' and isinstance(t.value, ast.Name) and t.value.id == 'sys':
                if isinstance(s.value, ast.Name) and ('saved', s.value.id) in st.env:
                    st.outs = st.env[('saved', s.value.id)][1]
                elif isinstance(s.value, ast.Call):
                    self.ev(s.value, st)
                    st.outs = frozenset(['start'])
                return True
        v = s.value
        if isinstance(v, ast.Attribute) and v.attr == 'stdout' and isinstance(v.value, ast.Name) and v.value.id == 'sys':
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env[('saved', t.id)] = ('OUTS', st.outs)
                    st.env[t.id] = ('STDOUT',)
                    return True
        return False

    def store_into(self, base, v, st, acc=False):
        """base[...] = v, base.append(v), base.attr (+)= v"""
        while isinstance(base, ast.Subscript):
            base = base.value
        if isinstance(base, ast.Name):
            st.env[base.id] = alt([st.env.get(base.id, EMPTY), v]) if not acc else \
                star(alt([st.env.get(base.id, EMPTY), v]))
        elif isinstance(base, ast.Attribute):
            o = self.ev(base.value, st)
            if o[0] == 'O':
                self.w.remember(o[1], base.attr, v, acc)

    def bind(self, t, v, st, stmt=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            for k in [k for k in st.env if isinstance(k, tuple) and (k == ('saved', t.id) or k[0] == 'expr' and
                                                                     re.match(re.escape(t.id) + r'\b', k[1]))]:
                del st.env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            alts = list(v[1]) if v[0] == 'A' else [v]
            n = len(t.elts)
            starred = any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, elem(v), st)
                    continue
                parts = [a[1][i] if a[0] == 'T' and len(a[1]) == n and not starred else elem(a) for a in alts]
                self.bind(x, alt(parts), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            if o[0] == 'O':
                self.w.remember(o[1], t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Name) and self.loops:
                st.env[t.value.id] = v          # see strong_targets
            else:
                self.store_into(t.value, v, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st)

    def iterable(self, e, st):
        return elem(self.ev(e, st))

    # -- expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, str):
            return lit(e.value)
        if e.value is None:
            return ('L', 'None')
        return NUM

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(lit(x.value))
            else:
                parts.append(self.text(self.ev(x.value, st)))
        return cat(*parts)

    def e_FormattedValue(self, e, st):
        return self.text(self.ev(e.value, st))

    @staticmethod
    def text(v):
        if v[0] == 'T':
            return alt(v[1])
        if v[0] in ('O', 'LAM', 'FN', 'STDOUT'):
            return NUM
        return v

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            return v if v[0] != 'OUTS' else NUM
        if self.f is not None:
            owner = self.w.sc.owner_of_name(self.f, e.id)
            if owner is not None and owner is not self.f and owner.name != '<module>':
                return NUM
            if owner is self.f and e.id in getattr(owner, '_nested', {}):
                return ('FN', owner._nested[e.id])
        r = self.w.p.resolve_in_module(self.module, e.id)
        return self.glob(r)

    def glob(self, r):
        if isinstance(r, Func):
            return ('FN', r)
        if isinstance(r, tuple) and r[0] == 'global':
            vals = []
            for s in r[1].tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2] for t in s.targets):
                    x = self.w.sc.resolve(r[1], None, s.value.func) if isinstance(s.value, ast.Call) else set()
                    x = [c for c in x if isinstance(c, Class)]
                    vals.append(('O', x[0]) if x else Run(self.w, None, None, r[1]).ev(s.value, St({}, frozenset(['start']))))
            return alt(vals)
        return NUM

    def e_Attribute(self, e, st):
        if isinstance(e.value, ast.Name) and e.value.id == 'sys' and e.attr == 'stdout':
            return ('STDOUT',)
        if not isinstance(e.value, ast.Name) or e.value.id not in st.env:
            r = self.w.p.resolve_expr(self.module, e)
            if r is not None and not isinstance(r, str):
                return self.glob(r)
        known = st.env.get(('expr', ast.unparse(e)))
        if known is not None:
            return known
        o = self.ev(e.value, st)
        return self.attr_of(o, e.attr, e, st)

    def attr_of(self, o, name, e, st):
        if o[0] == 'O':
            g = o[1].find_getter(name)
            if g is not None:
                v, st.outs = self.w.call(g, o[1], [], {}, st.outs)
                return v
            v = self.w.attr(o[1], name)
            if v is not None:
                return v
            m = o[1].find_method(name)
            return ('FN', m) if m is not None else NUM
        if name in NUMERIC_ATTRS:
            return NUM
        if o[0] == 'D':
            if not o[1]:
                return NUM
            return ('D', o[1], self.origin(e)) if o[1] != RAW else raw(self.origin(e))
        if o[0] in ('A', 'S', 'C', 'T'):
            fl = [a for a in atoms(o) if a[0] == 'D' and a[1]]
            return raw(self.origin(e)) if fl else NUM
        return NUM

    @staticmethod
    def origin(e):
        s = ast.unparse(e)
        return s if len(s) < 60 else s[:57] + '...'

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if not isinstance(e.slice, ast.Slice):
            self.ev(e.slice, st)
        if o[0] == 'T' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                -len(o[1]) <= e.slice.value < len(o[1]):
            return o[1][e.slice.value]
        if o[0] == 'T' and isinstance(e.slice, ast.Slice):
            return elem(o)
        if o[0] == 'D' and o[1] == RAW:
            return raw(self.origin(e))
        return elem(o)

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st) if not (isinstance(e.op, ast.Mod) and isinstance(e.right, ast.Tuple)) \
            else None
        if isinstance(e.op, ast.Add):
            if a == NUM and b == NUM:
                return NUM
            if a[0] == 'T' and b[0] == 'T':
                return ('T', a[1] + b[1])
            if 'T' in (a[0], b[0]):
                return seq(alt([elem(a), elem(b)]))
            return cat(self.text(a), self.text(b))
        if isinstance(e.op, ast.Mult):
            for x in (a, b):
                if x != NUM:
                    return star(self.text(x))
            return NUM
        if isinstance(e.op, ast.Mod):
            if a == NUM:
                return NUM
            vals = [self.ev(x, st) for x in e.right.elts] if isinstance(e.right, ast.Tuple) else \
                (list(b[1]) if b[0] == 'T' else None)
            outs = []
            for x in (a[1] if a[0] == 'A' else [a]):
                outs.append(self.percent(x, vals, b))
            return alt(outs)
        if isinstance(e.op, ast.BitOr):
            return alt([a, b])
        return NUM

    def percent(self, t, vals, single):
        if t[0] != 'L':
            # a template with structure: keep the literals, put the values anywhere between them
            every = [t] + [self.text(v) for v in (vals if vals is not None else [single])]
            return star(alt(every))
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(?:\((\w+)\))?[-#0 +]*(?:\d+|\*)?(?:\.\d+)?([sdrifgxcueEGX%])', t[1]):
            parts.append(('L', t[1][pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                parts.append(lit('%'))
                continue
            if m.group(2) in 'difgxueEGX':
                parts.append(NUM)
            elif vals is not None and i < len(vals):
                parts.append(self.text(vals[i]))
            elif vals is None:
                parts.append(self.text(elem(single)))
            i += 1
        parts.append(('L', t[1][pos:]))
        return cat(*parts)

    def e_BoolOp(self, e, st):
        return alt([self.ev(x, st) for x in e.values])

    def e_UnaryOp(self, e, st):
        self.ev(e.operand, st)
        return NUM

    def e_Compare(self, e, st):
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        return NUM

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = self.refine(e.test, True, st.copy()), self.refine(e.test, False, st.copy())
        v = alt([self.ev(e.body, a), self.ev(e.orelse, b)])
        st.outs = a.outs | b.outs if a.outs != st.outs or b.outs != st.outs else st.outs
        return v

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return alt([elem(self.ev(x.value if isinstance(x, ast.Starred) else x, st)) for x in e.elts])
        return ('T', tuple(self.ev(x, st) for x in e.elts))

    def e_List(self, e, st):
        return self.e_Tuple(e, st)

    def e_Set(self, e, st):
        return alt([self.ev(x, st) for x in e.elts])

    def e_Dict(self, e, st):
        vals = [self.ev(x, st) for x in e.values]
        return alt(vals) if vals else EMPTY

    def comp(self, e, elts, st):
        inner = st.copy()
        for g in e.generators:
            self.bind(g.target, self.iterable(g.iter, inner), inner)
            for c in g.ifs:
                self.ev(c, inner)
        vals = [self.ev(x, inner) for x in elts]
        st.outs = inner.outs
        return vals

    def e_ListComp(self, e, st):
        g = e.generators[0]
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not g.ifs:
            it = self.ev(g.iter, st)
            if it[0] == 'T':
                out = []
                for x in it[1]:
                    inner = st.copy()
                    self.bind(g.target, x, inner)
                    out.append(self.ev(e.elt, inner))
                    st.outs = inner.outs
                return ('T', tuple(out))
        return seq(self.comp(e, [e.elt], st)[0])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return alt(self.comp(e, [e.key, e.value], st))

    def e_Lambda(self, e, st):
        return ('LAM', e)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.bind(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return elem(self.ev(e.value, st))

    def e_Yield(self, e, st):
        if e.value is not None:
            self.yields.append(self.ev(e.value, st))
        return NUM

    def e_YieldFrom(self, e, st):
        self.yields.append(elem(self.ev(e.value, st)))
        return NUM

    def e_Slice(self, e, st):
        return NUM

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # -- calls
    def e_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'print' and 'print' not in st.env:
            return self.do_print(e, st)
        if isinstance(f, ast.Attribute):
            if f.attr == 'write' and len(e.args) == 1:
                o = self.ev(f.value, st)
                if o[0] == 'STDOUT' or ast.unparse(f.value) == 'self.filehandle':
                    self.emit(e, self.text(self.ev(e.args[0], st)), st)
                    return NUM
            if f.attr == 'close' and not e.args and self.ev(f.value, st)[0] == 'STDOUT':
                left = st.outs - CLOSED
                if left:
                    self.w.unclosed[(self.f.qual, 'closing the file')] = left
                return NUM
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return self.super_call(e, f, st)
        # functions of other modules
        ext = None
        if isinstance(f, (ast.Name, ast.Attribute)) and not (isinstance(f, ast.Name) and f.id in st.env):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if not (isinstance(root, ast.Name) and root.id in st.env):
                rs = self.w.sc.resolve(self.module, self.f, f)
                for r in rs:
                    if isinstance(r, str):
                        ext = str(r)
                    elif isinstance(r, Func) and not isinstance(f, ast.Attribute):
                        return self.invoke(('FN', r), None, e, st)
                    elif isinstance(r, Func) and isinstance(f, ast.Attribute):
                        o = self.ev(f.value, st)
                        if o[0] != 'O':
                            return self.invoke(('FN', r), None, e, st)
                    elif isinstance(r, Class):
                        self.args(e, st)
                        return ('O', r) if r.find_method('process_tree') else NUM
        if ext is not None:
            v = self.external(ext, e, st)
            if v is not None:
                return v
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, st)
            return self.method(o, f.attr, e, st)
        v = self.ev(f, st)
        if v[0] in ('LAM', 'FN'):
            return self.invoke(v, None, e, st)
        args, kw = self.args(e, st)
        return self.passed(args + list(kw.values()), e)

    def args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v[0] == 'T':
                    args.extend(v[1])
                else:
                    args.append(elem(v))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                if isinstance(k.value, ast.Call) and isinstance(k.value.func, ast.Name) and k.value.func.id in ('locals', 'vars'):
                    kw.update({n: v for n, v in st.env.items() if isinstance(n, str)})
                else:
                    self.ev(k.value, st)
            else:
                kw[k.arg] = self.ev(k.value, st)
        return args, kw

    def invoke(self, fn, cls, e, st):
        args, kw = self.args(e, st)
        if fn[0] == 'LAM':
            node = fn[1]
            if isinstance(node, ast.FunctionDef):
                nested = self.f._nested.get(node.name) if self.f is not None else None
                if nested is None:
                    return self.passed(args + list(kw.values()), e)
                v, st.outs = self.w.call(nested, None, args, kw, st.outs,
                                         env0={k: x for k, x in st.env.items() if k not in nested.params})
                return v
            inner = st.copy()
            for p_, a in zip([x.arg for x in node.args.args], args):
                inner.env[p_] = a
            v = self.ev(node.body, inner)
            st.outs = inner.outs
            return v
        f = fn[1]
        if f.cls is not None and cls is None:
            if not f.is_static:
                return self.passed(args, e)
            cls = f.cls
        v, st.outs = self.w.call(f, cls, args, kw, st.outs)
        return v

    def super_call(self, e, f, st):
        me = st.env.get(self.f.params[0]) if self.f.params else None
        if me is None or me[0] != 'O' or self.f.cls is None:
            self.args(e, st)
            return NUM
        mro = me[1].mro()
        start = self.f.cls
        sa = f.value.args
        if sa and isinstance(sa[0], ast.Name):
            rs = [c for c in self.w.sc.resolve(self.module, self.f, sa[0]) if isinstance(c, Class)]
            if rs:
                start = rs[0]
        if start not in mro:
            return NUM
        for c in mro[mro.index(start) + 1:]:
            if f.attr in c.methods:
                return self.invoke(('FN', c.methods[f.attr]), me[1], e, st)
        self.args(e, st)
        return NUM

    @staticmethod
    def passed(vals, e=None):
        """Result of unknown code that got vals."""
        ds = [a for v in vals for a in atoms(v) if a[0] == 'D' and a[1]]
        ls = [a for v in vals for a in atoms(v) if a[0] == 'L']
        if not ds:
            return NUM
        return star(alt(ds)) if not ls else star(alt(ds + [x for x in ls if not any(c in x[1] for c in '<"\'&')] or ds))

    def method(self, o, name, e, st):
        if o[0] == 'O':
            m = o[1].find_method(name)
            if m is not None:
                return self.invoke(('FN', m), o[1], e, st)
            v = self.w.attr(o[1], name)
            args, kw = self.args(e, st)
            return self.passed(args + ([v] if v else []), e)
        if o[0] == 'A' and any(x[0] == 'O' for x in o[1]):
            return alt([self.method(x, name, e, st) for x in o[1]])
        if name == 'join' and o == EMPTY and e.args:
            v = self.char_table(e.args[0], st)
            if v is not None:
                return v
        args, kw = self.args(e, st)
        if name in ('append', 'extend') and len(args) == 1 and isinstance(e.func.value, ast.Name) and e.func.value.id in st.env:
            n = e.func.value.id
            items = [args[0]] if name == 'append' else (list(args[0][1]) if args[0][0] == 'T' else [star(elem(args[0]))])
            st.env[n] = list_add(st.env[n], items, bool(self.loops))
            return NUM
        if name in ('append', 'add', 'appendleft', 'extend', 'update', 'insert', 'setdefault'):
            v = alt([elem(a) if name in ('extend', 'update') else a for a in args[-1:]]) if args else NUM
            self.store_into(e.func.value, v, st)
            return alt([o, v]) if name == 'setdefault' else NUM
        if name == 'format':
            return alt([self.fmt(t, args, kw, st) for t in (o[1] if o[0] == 'A' else [o])])
        if name == 'join' and args:
            if o[0] in ('L', 'D', 'C', 'A', 'S'):
                return join_list(args[0], self.text(o))
        if name == 'replace' and len(args) >= 2:
            return self.replace(o, args[0], args[1])
        if name == 'translate' and e.args:
            return self.translate(o, e.args[0], st)
        if name in ('sub', 'subn') and len(args) >= 2:
            return self.resub(None, args[0], args[1])
        if name in NOT_TEXT:
            return NUM
        if name == 'get_attrs' and args and args[0][0] == 'T' and all(x[0] == 'L' for x in args[0][1]):
            return ('T', tuple(NUM if x[1] in NUMERIC_ATTRS else raw(self.origin(e)) for x in args[0][1]))
        if name == 'items':
            return seq(('T', (elem(o), elem(o))))
        if name in SAME_STR:
            if name in ('get', 'pop') and len(args) > 1:
                return alt([elem(o), args[1]])
            if o[0] == 'D' and o[1] == RAW:
                return o
            return elem(o)
        if o[0] == 'D':
            if o[1] == RAW:
                return raw(self.origin(e))
            return self.passed([o] + args)
        if any(a[0] == 'D' and a[1] == RAW for a in atoms(o)):
            return raw(self.origin(e))
        return self.passed([o] + args)

    def char_table(self, g, st):
        """''.join(TABLE.get(c, c) for c in text)"""
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or len(g.generators) != 1 or g.generators[0].ifs or \
                not isinstance(g.generators[0].target, ast.Name):
            return None
        c, x = g.generators[0].target.id, g.elt
        table = None

        def is_c(n):
            return isinstance(n, ast.Name) and n.id == c
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and len(x.args) == 2 and \
                is_c(x.args[0]) and is_c(x.args[1]):
            table = x.func.value
        elif isinstance(x, ast.IfExp) and isinstance(x.body, ast.Subscript) and is_c(x.body.slice) and is_c(x.orelse):
            table = x.body.value
        d = self.dict_const(table) if table is not None else None
        if d is None:
            return None
        return self.simultaneous(self.text(self.ev(g.generators[0].iter, st)), d)

    def replace(self, o, a, b):
        def consts(v):
            if v[0] == 'L':
                return [v[1]]
            if v[0] == 'A' and all(x[0] == 'L' for x in v[1]):
                return [x[1] for x in v[1]]
            return None
        ca, cb = consts(a), consts(b)
        if ca is None or len(ca) != 1 or cb is None or len(cb) != 1:
            if ca is not None and len(ca) == 1 and len(ca[0]) == 1 and ca[0] not in DANGER:
                return star(alt([o, self.text(b)]))
            return star(alt([o, self.text(b)]))
        ca, cb = ca[0], cb[0]
        if len(ca) == 1 and ca in DANGER:
            if ca == '&' and cb == '&amp;':
                self.note_twice(o)
            return replace_char(o, ca, cb)
        if len(ca) == 1 and not any(c in DANGER and c != ' ' for c in cb):
            return map_pieces(o, lambda x: x if x[0] == 'D' else lit(x[1].replace(ca, cb)))
        if not any(c in DANGER and c != ' ' for c in cb):
            return o
        return star(alt([o, lit(cb)])) if cb.strip('\\') != 'n' else o

    def note_twice(self, v):
        ds = [a for a in atoms(v) if a[0] == 'D' and a[1]]
        if ds and all('+ent' in a[1] for a in ds):
            self.w.twice[(self.f.qual, ds[0][2])] = True

    def dict_const(self, node):
        """Constant dict char -> text denoted by an expression."""
        if isinstance(node, ast.Name):
            r = self.w.p.resolve_in_module(self.module, node.id)
            if isinstance(r, tuple) and r[0] == 'global':
                for s in r[1].tree.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2] for t in s.targets):
                        return self.dict_const(s.value)
            if self.f is not None:
                for v in self.w.sc.assigned(self.f).get(node.id, []):
                    if v is not None:
                        return self.dict_const(v)
            return None
        if isinstance(node, ast.Attribute) and self.f is not None and self.f.cls is not None:
            hit = self.f.cls.lookup(node.attr)
            if hit and hit[0] == 'attr':
                return self.dict_const(hit[1])
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'maketrans' and \
                len(node.args) == 1:
            return self.dict_const(node.args[0])
        if isinstance(node, ast.Dict):
            out = {}
            for k, v in zip(node.keys, node.values):
                if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'ord' and k.args:
                    k = k.args[0]
                if not (isinstance(k, ast.Constant) and isinstance(v, ast.Constant)):
                    return None
                kk = chr(k.value) if isinstance(k.value, int) else k.value
                out[kk] = v.value if v.value is not None else ''
            return out
        return None

    def translate(self, o, table, st):
        d = self.dict_const(table)
        if d is None:
            return o
        return self.simultaneous(o, d)

    @staticmethod
    def simultaneous(o, d):
        """All characters are replaced at once."""
        def piece(x):
            if x[0] == 'L':
                return lit(''.join(d.get(c, c) for c in x[1]))
            f = set(x[1])
            for c, s in d.items():
                if c not in s or c == '&' and re.fullmatch(r'&#?\w+;', s):
                    f -= {c, 'u' + c}
                elif s != c and all(i and s[i - 1] == '\\' for i, ch in enumerate(s) if ch == c and ch != '\\') and \
                        (c != '\\' or s == '\\\\' or re.fullmatch(TEXCMD, s)):
                    f.discard('u' + c)
                if s.startswith('&') and s.endswith(';'):
                    f.add('+ent')
            return ('D', frozenset(f), x[2])
        return map_pieces(o, piece)

    def resub(self, pat, repl, s):
        """re.sub(pat, repl, s); pat is a constant or None."""
        rl = repl[1] if repl[0] == 'L' else None
        if pat is not None:
            m = re.fullmatch(r'\[(\^?)((?:\\.|[^\]\\])+)\]\+?', pat)
            if m:
                try:
                    rx = re.compile(pat.rstrip('+'))
                except re.error:
                    rx = None
                if rx is not None:
                    gone = [c for c in DANGER if rx.fullmatch(c)]
                    if rl is not None:
                        esc = bool(re.search(r'^\\\\\\(g<0>|0|1)', rl))
                        # only '\\' + the character itself re-inserts it
                        if not re.search(r'\\(g<|\d)', rl) or esc:
                            def piece(x):
                                if x[0] == 'L':
                                    return lit(rx.sub(rl if not esc else (lambda mm: '\\' + mm.group(0)), x[1]))
                                f = set(x[1])
                                for c in gone:
                                    if not esc:
                                        f.discard(c)
                                    f.discard('u' + c)
                                return ('D', frozenset(f), x[2])
                            return map_pieces(s, piece)
                    elif repl[0] in ('LAM', 'FN'):
                        return s
        if rl is not None:
            parts = re.split(r'\\g<\w+>|\\\d', rl)
            v = []
            for i, x in enumerate(parts):
                if i:
                    v.append(s)
                v.append(lit(x))
            return star(alt([s, cat(*v)]))
        return star(alt([s, self.text(repl)]))

    def fmt(self, t, args, kw, st):
        if t[0] != 'L':
            if t[0] == 'D' and not t[1]:
                return self.passed(args)
            return star(alt([t] + [self.text(a) for a in args + list(kw.values()) if a[0] != 'OUTS']))
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(t[1]))
        except ValueError:
            return star(alt([t] + args))
        for text, name, _, _ in fields:
            parts.append(('L', text))
            if name is None:
                continue
            m = re.match(r'(\w*)(.*)', name)
            base, restn = m.group(1), m.group(2)
            if base == '':
                v = args[auto] if auto < len(args) else NUM
                auto += 1
            elif base.isdigit():
                v = args[int(base)] if int(base) < len(args) else NUM
            else:
                v = kw.get(base, NUM)
            if restn.startswith('.'):
                attr = restn[1:].split('.')[-1]
                v = NUM if attr in NUMERIC_ATTRS else \
                    (raw(name) if v[0] == 'D' and v[1] else self.w.attr(v[1], attr) or NUM if v[0] == 'O' else NUM)
            elif restn:
                v = elem(v)
            parts.append(self.text(v))
        return cat(*parts)

    def external(self, ext, e, st):
        name = ext.split('.')[-1]
        if ext.startswith('builtins.'):
            return self.builtin(name, e, st)
        if ext in ('html.escape', 'cgi.escape', 'markupsafe.escape', 'xml.sax.saxutils.escape', 'xml.sax.saxutils.quoteattr',
                   'json.dumps', 're.sub', 're.escape', 'urllib.parse.quote', 'urllib.parse.quote_plus', 're.split', 're.findall'):
            args, kw = self.args(e, st)
            if not args:
                return NUM
            v = self.text(args[0])
            if name == 'escape' and ext != 're.escape':
                self.note_twice(v)
                quote = True
                q = next((k.value for k in e.keywords if k.arg == 'quote'), e.args[1] if len(e.args) > 1 else None)
                if isinstance(q, ast.Constant):
                    quote = bool(q.value)
                elif q is not None:
                    quote = False
                if ext == 'cgi.escape':
                    return html_escape(v, quote=isinstance(q, ast.Constant) and bool(q.value), apos=False)
                if ext.startswith('xml.'):
                    v = html_escape(v, quote=False)
                    if len(e.args) > 1:
                        d = self.dict_const(e.args[1])
                        for c, s in (d or {}).items():
                            v = replace_char(v, c, s) if len(c) == 1 and c in DANGER else v
                    return v
                return html_escape(v, quote=quote)
            if name == 'quoteattr':
                return cat(lit('"'), html_escape(v, quote=True, apos=False), lit('"'))
            if name == 'dumps':
                d = map_pieces(v, lambda x: ('D', drop(flags_of(x), '') - {'u"', 'u\\'}, x[2] if x[0] == 'D' else ''))
                ds = [a for a in atoms(d) if a[1]]
                return cat(lit('"'), star(alt(ds)) if ds else NUM, lit('"'))
            if ext == 're.sub' and len(args) >= 3:
                pat = args[0][1] if args[0][0] == 'L' else None
                return self.resub(pat, args[1], self.text(args[2]))
            if name.startswith('quote'):
                return map_pieces(v, lambda x: ('D', frozenset(), x[2] if x[0] == 'D' else ''))
            return self.passed(args)
        if ext.startswith(('logging.', 'os.', 'sys.', 'time.', 'gzip.', 'bz2.', 'lzma.', 'io.', 'random.', 'math.')):
            self.args(e, st)
            return NUM
        args, kw = self.args(e, st)
        return self.passed(args + list(kw.values()), e)

    def builtin(self, name, e, st):
        if name == 'print':
            return self.do_print(e, st)
        args, kw = self.args(e, st)
        if name in NUM_BUILTINS:
            return NUM
        if name == 'enumerate' and args:
            return seq(('T', (NUM, elem(args[0])))) if args else NUM
        if name == 'zip':
            return seq(('T', tuple(elem(a) for a in args)))
        if name == 'map' and len(args) == 2:
            fn = args[0]
            if fn[0] in ('LAM', 'FN'):
                call = ast.Call(func=e.args[0], args=[], keywords=[])
                return self.apply(fn, [elem(args[1])], st)
            rs = self.w.sc.resolve(self.module, self.f, e.args[0])
            for r in rs:
                if isinstance(r, str):
                    fake = ast.copy_location(ast.Call(func=e.args[0], args=[ast.Name(id='%map', ctx=ast.Load())], keywords=[]), e)
                    st.env['%map'] = elem(args[1])
                    v = self.external(r, fake, st)
                    st.env.pop('%map')
                    return v
            return self.passed(args)
        if name == 'filter' and len(args) == 2:
            return elem(args[1])
        if name == 'getattr' and args:
            return raw(self.origin(e)) if args[0][0] == 'D' and args[0][1] else self.passed(args)
        if name in ('locals', 'vars', 'object', 'super', 'type', 'open', 'setattr'):
            return NUM
        if name == 'chr':
            return NUM
        if name == 'next' and args:
            return alt([elem(a) for a in args])
        if name in SAME_BUILTINS:
            if not args:
                return EMPTY
            if name in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'reversed', 'iter', 'dict') and args[0][0] == 'T':
                return args[0] if name in ('list', 'tuple') else elem(args[0])
            return self.text(args[0]) if name in ('str', 'repr', 'format') else (alt(args) if name in ('min', 'max') else args[0])
        return self.passed(args + list(kw.values()), e)

    def apply(self, fn, args, st):
        if fn[0] == 'LAM' and isinstance(fn[1], ast.Lambda):
            inner = st.copy()
            for p_, a in zip([x.arg for x in fn[1].args.args], args):
                inner.env[p_] = a
            return self.ev(fn[1].body, inner)
        if fn[0] == 'FN' and (fn[1].cls is None or fn[1].is_static):
            v, st.outs = self.w.call(fn[1], fn[1].cls, args, {}, st.outs)
            return v
        if fn[0] == 'FN' and self.cls is not None:
            v, st.outs = self.w.call(fn[1], self.cls, args, {}, st.outs)
            return v
        return self.passed(args)

    # -- output
    def do_print(self, e, st):
        kws = {k.arg: k.value for k in e.keywords}
        if 'file' in kws:
            o = self.ev(kws['file'], st)
            if o[0] != 'STDOUT':
                for a in e.args:
                    self.ev(a, st)
                return NUM
        sepv = self.text(self.ev(kws['sep'], st)) if 'sep' in kws else lit(' ')
        end = self.text(self.ev(kws['end'], st)) if 'end' in kws else ('L', '\n')
        parts = []
        for i, a in enumerate(e.args):
            if i:
                parts.append(sepv)
            if isinstance(a, ast.Starred):
                v = self.text(elem(self.ev(a.value, st)))
                parts.append(star(alt([v, sepv])))
            else:
                parts.append(self.text(self.ev(a, st)))
        self.emit(e, cat(*parts, end), st)
        return NUM

    def emit(self, e, v, st):
        outs = set()
        site = (self.f.qual, e.lineno)
        self.w.prints.add((self.f.path, e.lineno, e.col_offset))
        for q in st.outs:
            ex, ps = run(v, q)
            outs |= ex
            for origin, place, cs in ps:
                self.w.problems.setdefault((self.f, e.lineno, origin, place), set()).update(cs.split(' '))
        st.outs = frozenset(outs)
        self.w.states_seen |= st.outs
