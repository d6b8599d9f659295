"""The interpreter with constants folded exactly: positions and numbers known, contents still symbolic.

Used where a property is about particular numbers (of empty nodes, of token ranges) that the linear domain cannot express.
Lists without gaps are sorted by interpreting the comparison of their elements; regular expressions are folded when both the
pattern and the text are constants; numbers are folded by the arithmetic of Python.
"""
import re

from . import absint
from .absint import B, C, FALSE, NONE, T, TRUE, Interp, Undetermined, add, cat, is_c, is_gap, is_raise


class Exact(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.unroll = 40
        self.fork_index = True

    # ------------------------------------------------------------- comparison and order
    def less(self, a, b, st, node):
        if a[0] == 'tup' and b[0] == 'tup' and all(is_c(x) for x in a[1] + b[1]):
            try:
                return [(B(tuple(x[2] for x in a[1]) < tuple(x[2] for x in b[1])), st)]
            except TypeError:
                pass
        if b[0] == 'o' and a[0] != 'o':
            o = st.heap[b[1]]
            if o.kind == 'inst' and o.cls in self.p.classes and self.p.classes[o.cls].find_method('__lt__') is not None:
                import ast
                return self.compare(ast.Gt(), b, a, st, node)
        return super().less(a, b, st, node)

    def eq(self, a, b, st, node):
        if a[0] == 'tup' and b[0] == 'tup' and all(is_c(x) for x in a[1] + b[1]):
            return [(B([x[2] for x in a[1]] == [x[2] for x in b[1]]), st)]
        if a[0] == 'o' and b[0] == 'o' and st.heap[a[1]].kind == 'list' and st.heap[b[1]].kind == 'list':
            x, y = st.heap[a[1]].items, st.heap[b[1]].items
            if not any(is_gap(i) or not is_c(i) and (i[0] != 'o' or st.heap[i[1]].kind != 'inst') for i in x + y):
                if x == y:
                    return [(TRUE, st)]
                if len(x) != len(y) or all(is_c(i) for i in x + y):
                    return [(FALSE, st)]
                if all(i[0] == 'o' and self.p.classes[st.heap[i[1]].cls].find_method('__eq__') is None for i in x + y):
                    return [(FALSE, st)]
        if b[0] == 'o' and a[0] != 'o' and st.heap[b[1]].kind == 'inst':
            return super().eq(b, a, st, node)
        return super().eq(a, b, st, node)

    def position(self, v, name, x, st, node):
        """(index or count of x in a list, state), or None when some comparison is not decided."""
        items = st.heap[v[1]].items if v[0] == 'o' else v[1]
        n = 0
        for i, y in enumerate(items):
            if is_gap(y):
                return None
            if y == x and not (x[0] == 'o' and st.heap[x[1]].weak) and x[0] in ('o', 'c'):
                same = True
            else:
                res = self.eq(y, x, st, node)
                tr = self.truth(*res[0]) if len(res) == 1 and not is_raise(res[0][0]) else ()
                if len(tr) != 1 or not isinstance(tr[0][0], bool):
                    return None
                same, st = tr[0]
            if same:
                n += 1
                if name == 'index':
                    return C(i), st
        return (C(n), st) if name == 'count' else (self.exc('ValueError', node), st)

    def ordered(self, items, st, node, how=()):
        """(items in increasing order, state), or None when some comparison is not decided."""
        out = []
        reverse = how['reverse'] if 'reverse' in how else FALSE
        if not is_c(reverse) or any(map(is_gap, items)):
            return None
        if 'key' in how and how['key'] != NONE:
            decorated = []
            for x in items:
                res = self.call(how['key'], [x], {}, st, node, None)
                if len(res) != 1 or is_raise(res[0][0]):
                    return None
                decorated.append((res[0][0], x))
                st = res[0][1]
        else:
            decorated = [(x, x) for x in items]
        for x in decorated:
            k = len(out)
            while k > 0:
                a, b = (out[k - 1][0], x[0]) if reverse[2] else (x[0], out[k - 1][0])
                res = self.less(a, b, st, node)
                if len(res) != 1 or is_raise(res[0][0]):
                    return None
                r, st = res[0]
                tr = self.truth(r, st)
                if len(tr) != 1 or not isinstance(tr[0][0], bool):
                    return None
                t, st = tr[0]
                if not t:
                    break
                k -= 1
            out.insert(k, x)
        return tuple(x for _, x in out), st

    # ------------------------------------------------------------- builtins
    def call_builtin(self, name, args, kwargs, st, node, fr):
        a0 = args[0] if args else None
        if name in ('sorted', 'min', 'max') and len(args) == 1 and set(kwargs) <= {'key', 'reverse'} and a0[0] in ('o', 'tup', 'seq'):
            res = []
            for items, s in self.iterate(a0, st, node):
                if items and items[0] == '!raise':
                    return super().call_builtin(name, args, kwargs, st, node, fr)
                o = self.ordered(items, s, node, kwargs) if name == 'sorted' or not kwargs else None
                if o is None or not items and name != 'sorted':
                    return super().call_builtin(name, args, kwargs, st, node, fr)
                items, s = o
                s = s.fork()
                if name == 'sorted':
                    res.append((s.new(f'L{node.lineno}:{node.col_offset}', absint.Obj('list', items=items, fresh=True, sorted=True)), s))
                else:
                    res.append((items[0] if name == 'min' else items[-1], s))
            return res
        if name == 'round' and args and all(is_c(x) for x in args):
            return [(C(round(*[x[2] for x in args])), st)]
        if name == 'int' and a0 is not None and a0[0] == 'o' and st.heap[a0[1]].kind == 'inst' and \
                st.heap[a0[1]].cls in self.p.classes:
            m = self.p.classes[st.heap[a0[1]].cls].find_method('__int__')
            if m is not None:
                return self.call_func(m, [a0], {}, st, node)
        if name == 'range' and all(is_c(a) for a in args):
            r = list(range(*[a[2] for a in args]))
            if len(r) <= 40:
                return [(('seq', tuple(C(i) for i in r)), st)]
        return super().call_builtin(name, args, kwargs, st, node, fr)

    def call_method(self, v, name, args, kwargs, st, node, *rest):
        if v[0] == 't' and v[1] == 'rematch':
            m = re.match(v[2][2], v[3][2]) if v[2][1] == 'str' else None
            if m is not None and all(is_c(a) for a in args):
                if name == 'group':
                    try:
                        r = m.group(*[a[2] for a in args])
                    except IndexError:
                        return [(self.exc('IndexError', node), st)]
                    return [(C(r) if not isinstance(r, tuple) else ('tup', tuple(C(x) for x in r)), st)]
                if name == 'groups':
                    return [(('tup', tuple(C(x) for x in m.groups())), st)]
        if name == 'join' and is_c(v) and len(args) == 1:
            res = super().call_method(v, name, args, kwargs, st, node, *rest)
            return [(cat([y for i, x in enumerate(r[2]) for y in ([v] if i else []) + [x]]) if r[2] else C(''), s)
                    if r[0] == 'join' and not any(is_gap(x) for x in r[2]) else (r, s) for r, s in res]
        if name in ('index', 'count') and v[0] in ('o', 'tup', 'seq') and len(args) == 1 and not kwargs and (v[0] != 'o' or st.heap[v[1]].kind == 'list'):
            r = self.position(v, name, args[0], st, node)
            if r is not None:
                return [r]
        if name == 'sort' and v[0] == 'o' and st.heap[v[1]].kind == 'list' and not args and set(kwargs) <= {'key', 'reverse'}:
            o = self.ordered(st.heap[v[1]].items, st, node, kwargs)
            if o is not None and not st.heap[v[1]].weak:
                items, s = o
                s = s.fork()
                self.mutate(v, name, args, s, node)
                w = s.w(v[1])
                w.items, w.sorted = items, True
                return [(NONE, s)]
        return super().call_method(v, name, args, kwargs, st, node, *rest)

    def call_ext(self, name, args, kwargs, st, node):
        if name in ('re.match', 're.search', 're.fullmatch') and len(args) == 2 and not kwargs and all(is_c(a) for a in args):
            pat = args[0][2]
            if isinstance(pat, str) and isinstance(args[1][2], str):
                m = getattr(re, name[3:])(pat, args[1][2])
                if m is None:
                    return [(NONE, st)]
                if name == 're.match':
                    return [(T('rematch', args[0], args[1]), st)]
        return super().call_ext(name, args, kwargs, st, node)

    def truth(self, v, st, node=None):
        if v[0] == 't' and v[1] == 'rematch':
            return [(True, st)]
        return super().truth(v, st, node)
