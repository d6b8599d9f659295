"""Abstract interpreter for the repository's Python source (disjunctive abstract domain).

The interpreter evaluates functions of the analysed source over *abstract heaps*:

* a handful of individually tracked ("arbitrary but fixed") objects,
* sequences, sets and dicts whose untracked remainder is a *gap* (zero or more unknown elements),
* symbolic scalars (value-numbered terms; integers in linear normal form; string concatenations),
* branch facts about those terms.

States are kept as finite sets, joined when equal, loops are iterated to a fixpoint with widening
of integers and strings.  There is no solver, and no code of the repository is executed.  Anything
the interpreter does not model becomes an unknown value; when an unknown could have touched tracked
state the path is marked `tainted`, and callers treat obligations on tainted paths as undetermined.
"""
import ast
import builtins

from .project import Class, Func, Module, local_bindings


class Undetermined(Exception):
    """The abstract interpreter gives up on this entry point."""


NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
TOP = ('top',)


def C(v):
    return ('c', type(v).__name__, v)


def B(v):
    return TRUE if v else FALSE


def S(name, typ='?'):
    """A symbol. typ: int, str, bool, obj (a truthy object), '?' (anything), 'str?' (str or None)."""
    return ('s', name, typ)


def T(op, *args):
    return ('t', op) + args


def O(oid):
    return ('o', oid)


def is_c(v):
    return v[0] == 'c'


def is_o(v):
    return v[0] == 'o'


ALLOC_LIMIT = [8]    # objects allocated at one place before an analysis gives up
ITEM_LIMIT = [40]    # elements of a collection before an analysis gives up


def is_raise(v):
    return v[0] == '!raise'


# ---------------------------------------------------------------- linear integers
def lin(v):
    """Linear form (const, {term: coef}) of an int-like value, or None."""
    if v[0] == 'c' and v[1] in ('int', 'bool', 'float'):
        return v[2], {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    if v[0] in ('s', 't', 'top', 'o'):
        return 0, {v: 1}
    return None


def unlin(c, d):
    d = {k: n for k, n in d.items() if n}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, sign=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    c = la[0] + sign * lb[0]
    d = la[1]
    for k, n in lb[1].items():
        d[k] = d.get(k, 0) + sign * n
    return unlin(c, d)


# ---------------------------------------------------------------- string concatenation
def cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            out.extend(p[1])
        else:
            out.append(p)
    merged = []
    for p in out:
        if is_c(p) and p[1] == 'str':
            if p[2] == '':
                continue
            if merged and is_c(merged[-1]) and merged[-1][1] == 'str':
                merged[-1] = C(merged[-1][2] + p[2])
                continue
        merged.append(p)
    if not merged:
        return C('')
    if len(merged) == 1:
        return merged[0]
    if len(merged) > 12:
        return S('longstr', 'str')
    return ('cat', tuple(merged))


# ---------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'sorted', 'weak', 'fresh', 'tag')

    def __init__(self, kind, cls=None, attrs=None, items=(), weak=False, fresh=False, sorted=None, tag=None):
        self.kind, self.cls, self.attrs, self.items = kind, cls, attrs or {}, items
        self.weak, self.fresh, self.sorted, self.tag = weak, fresh, sorted, tag

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.attrs), self.items, self.weak, self.fresh, self.sorted, self.tag)

    def key(self):
        return (self.kind, self.cls, tuple(sorted(self.attrs.items(), key=lambda kv: repr(kv[0]))), self.items,
                self.weak, self.fresh, self.sorted)


def gap(tag, elem=None, nonempty=False):
    """Zero or more (one or more if nonempty) unknown elements; elem: value standing for any of them."""
    return ('gap', tag, elem if elem is not None else S('gen:' + str(tag), '?'), nonempty)


def is_gap(x):
    return x[0] == 'gap'


def cut_at(items, bound, default):
    """The number of items before the position `bound`, when that is certain."""
    if bound == NONE:
        return default
    if is_c(bound):
        n = bound[2]
        if not isinstance(n, int):
            return None
        part = items[:n] if n >= 0 else items[n:]
        if any(is_gap(i) for i in part) or len(part) < abs(n):
            return None
        return n if n >= 0 else len(items) + n
    pos = C(0)
    for k, i in enumerate(items):
        if pos == bound:
            return k
        pos = add(pos, T('gaplen', i[1]) if is_gap(i) else C(1))
    return len(items) if pos == bound else None


class State:
    __slots__ = ('heap', 'facts', 'ps', 'trace', 'tainted', 'counts')

    def __init__(self):
        self.heap, self.facts, self.ps, self.trace = {}, {}, (), ()
        self.tainted = ()
        self.counts = {}

    def fork(self):
        s = State()
        s.heap, s.facts, s.ps, s.trace = dict(self.heap), dict(self.facts), self.ps, self.trace
        s.tainted, s.counts = self.tainted, dict(self.counts)
        return s

    def w(self, oid):
        """Writable object."""
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o

    def new(self, oid, obj):
        n, name = 0, oid
        while name in self.heap:
            n += 1
            name = f'{oid}#{n}'
        if n > ALLOC_LIMIT[0]:
            raise Undetermined(f'unbounded allocation at {oid}')
        self.heap[name] = obj
        return O(name)

    def taint(self, why):
        if why not in self.tainted:
            self.tainted = self.tainted + (why,)

    def ev(self, *e):
        if len(self.trace) < 400:
            self.trace = self.trace + (e,)

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            v = todo.pop()
            for oid in oids(v):
                if oid in seen or oid not in self.heap:
                    continue
                seen.add(oid)
                o = self.heap[oid]
                todo.extend(o.attrs.values())
                todo.extend(o.items)
                todo.extend(k for k in o.attrs if isinstance(k, tuple))
        return seen

    def collect(self, base, extra=()):
        """Drop objects that are not in `base` and not reachable from it, from a frame or from `extra`."""
        new = [o for o in self.heap if o not in base]
        if not new:
            return
        roots = [O(o) for o in self.heap if o in base or self.heap[o].kind == 'frame'] + list(extra)
        live = self.reach(roots)
        for o in new:
            if o not in live and self.heap[o].kind != 'frame':
                del self.heap[o]

    def key(self):
        return (frozenset((oid, o.key()) for oid, o in self.heap.items()),
                frozenset(self.facts.items()), self.ps, self.tainted)


def oids(v):
    """All object ids mentioned in a value."""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'o':
        yield v[1]
        return
    if v[0] in ('c', 's', 'top', 'cls', 'mod', 'ext', 'bi'):
        return
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    yield from oids(y)
            else:
                yield from oids(x)


def mentions(v, pred):
    if not isinstance(v, tuple):
        return False
    if pred(v):
        return True
    return any(mentions(x, pred) for x in v if isinstance(x, tuple))


def is_generic_sym(v):
    return len(v) == 3 and v[0] == 's' and isinstance(v[1], str) and v[1].startswith('gen:')


def roots_of(v, out=None):
    """Names of the generic symbols a value is built from."""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if is_generic_sym(v):
            out.add(v[1])
        else:
            for x in v:
                roots_of(x, out)
    return out


def dedupe(states):
    """states: list of (flow, State)"""
    if len(states) < 2:
        return states
    seen, out = set(), []
    for f, s in states:
        k = (f if not (isinstance(f, tuple) and f and f[0] == 'raise') else (f[0], f[1]), s.key())
        if k not in seen:
            seen.add(k)
            out.append((f, s))
    return out


BUILTIN_EXC = {n: getattr(builtins, n) for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

MAPPING_MIXIN = {'get', 'pop', 'update', 'setdefault', 'items', 'keys', 'values', 'popitem', 'clear'}
PURE_STR = {'startswith', 'endswith', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'isdigit',
            'format', 'title', 'capitalize', 'find', 'rfind', 'index', 'count', 'isalpha', 'isupper', 'islower',
            'isspace', 'isnumeric', 'isalnum', 'encode', 'decode', 'zfill', 'ljust', 'rjust', 'center', 'swapcase',
            'translate', 'casefold', 'removeprefix', 'removesuffix', 'expandtabs', 'isdecimal', 'rindex'}


class Interp:
    MAX_DEPTH = 14
    MAX_STATES = 6000

    def __init__(self, project, hook=None, opaque=(), models=None, budget=400000):
        self.p = project
        self.hook = hook
        self.depth = 0
        self.stack = []
        self.opaque = set(opaque)    # function quals not to inline
        self.models = models or {}   # qual -> callable(interp, args, kwargs, st, node) -> results
        self.steps = 0
        self.budget = budget
        self.inlined = set()
        self.locals_cache = {}
        self.yields = []
        self.unroll = 0          # rounds of a while loop before its variables are widened
        self.recursion = 2       # calls of the same function on the stack that are followed
        self.fork_index = False  # reading a known list at an unknown index forks over its elements
        self.val_seps = set()    # separators that 'val:' symbols may contain

    # ------------------------------------------------------------ helpers
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Undetermined('step budget exhausted')

    def bind(self, results, f):
        out = []
        for v, st in results:
            if v[0] == '!raise':
                out.append((v, st))
            else:
                out.extend(f(v, st))
        return out

    def many(self, exprs, fr, st):
        """Evaluate expressions left to right: list of (list of values | raise, st)."""
        acc = [([], st)]
        for e in exprs:
            nxt = []
            for vals, s in acc:
                if isinstance(vals, tuple):   # raise
                    nxt.append((vals, s))
                    continue
                for v, s2 in self.ev(e, fr, s):
                    if is_raise(v):
                        nxt.append((v, s2))
                    else:
                        nxt.append((vals + [v], s2))
            acc = nxt
        return acc

    def exc(self, name, node, msg=None):
        return ('!raise', ('exc', name, msg), (node.lineno if node is not None and hasattr(node, 'lineno') else 0))

    def site(self, fr_func, node):
        return f'{fr_func}:{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}'

    # ------------------------------------------------------------ names
    def lookup(self, name, fr, st):
        """Value of a name in frame fr."""
        f = fr
        while f is not None:
            o = st.heap[f]
            if name in o.attrs:
                return o.attrs[name]
            f = o.tag[1]
        module = st.heap[fr].tag[0]
        return self.module_name(module, name)

    def module_name(self, module, name):
        r = self.p.resolve_in_module(module, name)
        if r is None:
            if hasattr(builtins, name):
                if name in BUILTIN_EXC:
                    return ('exccls', name)
                return ('bi', name)
            if name == '__name__':
                return C(module.name)
            return None
        return self.wrap(r)

    def wrap(self, r):
        if isinstance(r, Class):
            return ('cls', r.qual)
        if isinstance(r, Func):
            return ('fn', r.key, None, None)
        if isinstance(r, Module):
            return ('mod', r.name)
        if isinstance(r, tuple) and r[0] == 'global':
            return self.global_value(r[1], r[2])
        if isinstance(r, str):
            return ('ext', str(r))
        return TOP

    def global_value(self, module, name):
        binding = module.names.get(name)
        st = binding[1] if binding else None
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            try:
                return C(ast.literal_eval(st.value)) if isinstance(st.value, ast.Constant) else S(f'{module.name}.{name}', 'obj')
            except ValueError:
                pass
        return S(f'{module.name}.{name}', 'obj')

    # ------------------------------------------------------------ truth
    def truth(self, v, st, node=None):
        """list of (bool | raise tuple, st)"""
        k = v[0]
        if k == 'c':
            return [(bool(v[2]), st)]
        if k == 'o':
            o = st.heap[v[1]]
            if o.kind in ('list', 'set', 'dict', 'tuplelist'):
                return self.nonempty(v[1], st)
            if o.kind == 'inst' and o.cls in self.p.classes:
                c = self.p.classes[o.cls]
                m = c.find_method('__bool__') or c.find_method('__len__')
                if m is not None:
                    out = []
                    for r, s in self.call_func(m, [v], {}, st, node):
                        if is_raise(r):
                            out.append((r, s))
                        else:
                            out.extend(self.truth(r, s, node))
                    return out
            return [(True, st)]
        if k in ('fn', 'cls', 'mod', 'ext', 'bi', 'bm', 'lam', 'exccls', 'super'):
            return [(True, st)]
        if k == 'tup':
            return [(bool(v[1]), st)]
        if k == 'cat':
            return [(True, st)]
        if k == 'join':
            # joined text of entries: empty iff there are no entries
            if any(not is_gap(x) or x[3] for x in v[2]):
                return [(True, st)]
            return self.atom(T('truthy', v), st)
        if k == 's':
            if v[2] == 'obj':
                return [(True, st)]
            if v[2] == 'bool':
                return self.atom(v, st)
            return self.atom(T('truthy', v), st)
        if k == 't':
            op = v[1]
            if op == 'not':
                return [((not b) if isinstance(b, bool) else b, s) for b, s in self.truth(v[2], st, node)]
            if op == 'nonempty' and v[2][0] == 'o' and v[2][1] in st.heap:
                return self.nonempty(v[2][1], st)
            if op in ('eq', 'lt', 'is', 'in', 'isinstance'):
                return self.atom(v, st)
            return self.atom(T('truthy', v), st)
        if k == 'lin':
            return self.atom(T('truthy', v), st)
        return self.atom(T('truthy', v), st)

    def nonempty(self, oid, st):
        o = st.heap[oid]
        if o.kind == 'dict':
            if any(not is_gap(x) for x in o.items):
                return [(True, st)]
        elif any(not is_gap(x) for x in o.items):
            return [(True, st)]
        gaps = [x for x in o.items if is_gap(x)]
        if not gaps:
            return [(False, st)]
        if any(g[3] for g in gaps):
            return [(True, st)]
        # fork: all gaps empty, or at least one element
        s1 = st.fork()
        s1.w(oid).items = tuple(x for x in o.items if not is_gap(x))
        s2 = st.fork()
        i = max(j for j, x in enumerate(o.items) if is_gap(x))
        items = list(o.items)
        items[i] = items[i][:3] + (True,)
        s2.w(oid).items = tuple(items)
        return [(False, s1), (True, s2)]

    def implied(self, a, st):
        """Truth of an atom implied by the facts, or None."""
        f = st.facts
        if a in f:
            return f[a]
        op = a[1] if a[0] == 't' else None
        if op == 'eq':
            x, y = a[2], a[3]
            if x == y:
                return True
            d = add(x, y, -1) if not (x[0] == 'o' or y[0] == 'o') else None
            if d is not None and not is_c(d):
                got = self.diff_bound(d, st)
                if got is not None and (got[0] is not None and got[0] > 0 or got[1] is not None and got[1] < 0):
                    return False
            # x == c known for another constant
            for other, const in ((x, y), (y, x)):
                if is_c(const) and not is_c(other):
                    for fa, val in f.items():
                        if val and fa[0] == 't' and fa[1] == 'eq' and other in fa[2:]:
                            oc = fa[3] if fa[2] == other else fa[2]
                            if is_c(oc) and oc != const:
                                return False
                    if const == NONE and f.get(T('truthy', other)) is True:
                        return False
                    if const[1] == 'str' and const[2] != '' and f.get(T('truthy', other)) is False:
                        return False
                    if const == C('') and f.get(T('truthy', other)) is True:
                        return False
                    if const == C('') and f.get(T('truthy', other)) is False and other[0] == 's' and other[2] == 'str':
                        return True
        elif op == 'is' or op == 'isnone':
            pass
        elif op == 'truthy':
            x = a[2]
            for fa, val in f.items():
                if val and fa[0] == 't' and fa[1] == 'eq' and x in fa[2:]:
                    oc = fa[3] if fa[2] == x else fa[2]
                    if is_c(oc):
                        return bool(oc[2])
            if x[0] == 's' and x[2] == 'str' and f.get(T('eq', *sorted((x, C('')), key=repr))) is False:
                return True
        elif op == 'lt':
            x, y = a[2], a[3]
            if x == y:
                return False
            d = add(y, x, -1)
            if d is not None and is_c(d):
                return d[2] > 0
            if f.get(T('lt', y, x)) is True:
                return False
            for (c0, c1) in ((x, y),):
                if f.get(T('eq', *sorted((x, y), key=repr))) is True:
                    return False
            # bounds from other facts on the same difference
            la = add(x, y, -1)
            if la is not None:
                got = self.diff_bound(la, st)
                if got is not None:
                    lo, hi = got
                    if hi is not None and hi < 0:
                        return True
                    if lo is not None and lo >= 0:
                        return False
        return None

    def diff_bound(self, d, st):
        """(lo, hi) bounds of linear value d implied by stored lt/eq facts on the same linear part."""
        l = lin(d)
        if l is None:
            return None
        c, part = l
        part = {k: n for k, n in part.items() if n}
        lo = hi = None
        if part and all(k[0] == 't' and k[1] in ('len', 'gaplen', 'count') for k in part):
            if all(n > 0 for n in part.values()):
                lo = c
            elif all(n < 0 for n in part.values()):
                hi = c
        neg = {k: -n for k, n in part.items()}
        for fa, val in st.facts.items():
            if fa[0] != 't' or fa[1] not in ('lt', 'eq'):
                continue
            e = add(fa[2], fa[3], -1)
            if e is None:
                continue
            le = lin(e)
            if le is None:
                continue
            for sgn, q in ((1, part), (-1, neg)):
                if le[1] == q and q:
                    # e = ec + sgn*part  => sgn*part = e - ec
                    ec = le[0]
                    if fa[1] == 'eq':
                        if val:
                            x = -ec * sgn + c
                            lo = x if lo is None else max(lo, x)
                            hi = x if hi is None else min(hi, x)
                    elif val:      # e < 0  => e <= -1 (ints)
                        b = -1 - ec
                        if sgn == 1:
                            hi = b + c if hi is None else min(hi, b + c)
                        else:
                            lo = -b + c if lo is None else max(lo, -b + c)
                    else:          # e >= 0
                        b = -ec
                        if sgn == 1:
                            lo = b + c if lo is None else max(lo, b + c)
                        else:
                            hi = -b + c if hi is None else min(hi, -b + c)
        if lo is None and hi is None:
            return None
        return lo, hi

    def atom(self, a, st):
        t = self.implied(a, st)
        if t is not None:
            return [(t, st)]
        if self.hook is not None:
            dec = getattr(self.hook, 'decide', None)
            if dec is not None:
                r = dec(self, a, st)
                if r is not None:
                    return [(r, st)]
        s1, s2 = st.fork(), st.fork()
        s1.facts[a] = True
        s2.facts[a] = False
        return [(True, s1), (False, s2)]

    # ------------------------------------------------------------ comparisons
    def eq(self, a, b, st, node):
        """list of (value, st): value TRUE/FALSE/atom"""
        if a == b and a[0] in ('c', 'o', 's', 't', 'tup', 'cat', 'cls', 'fn', 'join'):
            if a[0] == 'o' and st.heap[a[1]].weak:
                return [(T('eq', a, b), st)]
            return [(TRUE, st)]
        if is_c(a) and is_c(b):
            return [(B(a[2] == b[2]), st)]
        for x, y in ((a, b), (b, a)):
            if x[0] == 'o':
                o = st.heap[x[1]]
                if o.kind == 'inst' and o.cls in self.p.classes:
                    m = self.p.classes[o.cls].find_method('__eq__')
                    if m is not None:
                        return self.call_func(m, [x, y], {}, st, node)
                if y[0] == 'o':
                    oy = st.heap[y[1]]
                    if o.kind in ('list', 'set', 'dict') and oy.kind in ('list', 'set', 'dict'):
                        if o.kind == oy.kind and o.items == oy.items and not any(is_gap(i) for i in o.items):
                            return [(TRUE, st)]
                        for p1, p2 in ((o.items, oy.items), (oy.items, o.items)):
                            # an individually tracked object of one that is not in the other
                            if o.kind != 'dict' and any(i[0] == 'o' and i[1] in st.heap and not st.heap[i[1]].weak and
                                                        st.heap[i[1]].kind == 'inst' and i not in p2 and
                                                        all(is_gap(j) or j[0] == 'o' for j in p2) for i in p1):
                                return [(FALSE, st)]
                        return [(T('eq', *sorted((('snap', o.items), ('snap', oy.items)), key=repr)), st)]
                    if o.weak and oy.weak:
                        return [(T('eq', *sorted((x, y), key=repr)), st)]
                    return [(FALSE, st)]
                if y[0] in ('c', 'cat', 'join', 'tup', 'cls', 'fn'):
                    if o.kind in ('list', 'set', 'dict') and y[0] == 'tup':
                        return [(FALSE, st)]
                    return [(FALSE, st)]
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a[1]) != len(b[1]):
                return [(FALSE, st)]
            out = [(TRUE, st)]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for v, s in out:
                    if v == FALSE or is_raise(v):
                        nxt.append((v, s))
                        continue
                    for r, s2 in self.eq(x, y, s, node):
                        if is_raise(r):
                            nxt.append((r, s2))
                            continue
                        for t, s3 in self.truth(r, s2):
                            nxt.append((B(t) if isinstance(t, bool) else t, s3))
                out = nxt
            return out
        for x, y in ((a, b), (b, a)):
            if is_c(x) and x[2] is None and y[0] in ('cat', 'join', 'lin', 'tup', 'cls', 'fn', 'lam', 'bm', 'mod', 'ext'):
                return [(FALSE, st)]
            if is_c(x) and x[2] is None and y[0] == 's' and y[2] in ('int', 'str', 'bool', 'obj', 'float'):
                return [(FALSE, st)]
            if is_c(x) and x[1] == 'str' and y[0] == 's' and y[2] in ('int', 'bool', 'obj', 'float'):
                return [(FALSE, st)]
            if is_c(x) and x[1] in ('int', 'bool', 'float') and self.is_str(y):
                return [(FALSE, st)]
            if is_c(x) and x[1] == 'str' and y[0] == 'lin':
                return [(FALSE, st)]
            if is_c(x) and x[1] == 'str' and y[0] == 'cat':
                # same literal prefix required
                first, last = y[1][0], y[1][-1]
                if is_c(first) and not x[2].startswith(first[2]) or is_c(last) and not x[2].endswith(last[2]):
                    return [(FALSE, st)]
                if any(is_c(q) and q[2] not in x[2] for q in y[1]):
                    return [(FALSE, st)]
            if is_c(x) and x[1] == 'str' and y[0] == 'join' and x[2] in ('', '_'):
                if any(not is_gap(i) or i[3] for i in y[2]):
                    return [(FALSE, st)]
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            d = add(a, b, -1)
            if d is not None and is_c(d):
                return [(B(d[2] == 0), st)]
        return [(T('eq', *sorted((a, b), key=repr)), st)]

    def ident(self, a, b, st, node):
        if a[0] == 'o' and b[0] == 'o':
            if a == b:
                if st.heap[a[1]].weak:
                    return [(T('eq', a, b), st)]
                return [(TRUE, st)]
            if st.heap[a[1]].weak and st.heap[b[1]].weak:
                return [(T('eq', *sorted((a, b), key=repr)), st)]
            return [(FALSE, st)]
        if a[0] == 'o' or b[0] == 'o':
            x, y = (a, b) if a[0] == 'o' else (b, a)
            if y[0] in ('s', 't', 'top'):
                return [(T('eq', *sorted((a, b), key=repr)), st)]
            return [(FALSE, st)]
        return self.eq(a, b, st, node)

    def less(self, a, b, st, node):
        """a < b"""
        if is_c(a) and is_c(b):
            try:
                return [(B(a[2] < b[2]), st)]
            except TypeError:
                return [(self.exc('TypeError', node), st)]
        if a[0] == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst' and o.cls in self.p.classes:
                m = self.p.classes[o.cls].find_method('__lt__')
                if m is not None:
                    return self.call_func(m, [a, b], {}, st, node)
        d = add(b, a, -1)
        if d is not None and is_c(d):
            return [(B(d[2] > 0), st)]
        return [(T('lt', a, b), st)]

    def compare(self, op, a, b, st, node):
        if isinstance(op, ast.Is):
            return self.ident(a, b, st, node)
        if isinstance(op, ast.IsNot):
            return self.negate(self.ident(a, b, st, node))
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st, node)
        if isinstance(op, ast.NotEq):
            return self.negate(self.eq(a, b, st, node))
        if isinstance(op, ast.Lt):
            return self.less(a, b, st, node)
        if isinstance(op, ast.GtE):
            return self.negate(self.less(a, b, st, node))
        if isinstance(op, (ast.Gt, ast.LtE)):
            # objects with total_ordering: a > b  ==  not (a < b) and a != b ; scalars: b < a
            if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                out = []
                for r, s in self.less(a, b, st, node):
                    if is_raise(r):
                        out.append((r, s))
                        continue
                    for t, s2 in self.truth(r, s):
                        if t:
                            out.append((B(isinstance(op, ast.LtE)), s2))
                        else:
                            for r2, s3 in self.eq(a, b, s2, node):
                                if is_raise(r2):
                                    out.append((r2, s3))
                                    continue
                                for t2, s4 in self.truth(r2, s3):
                                    gt = not t2
                                    out.append((B(gt if isinstance(op, ast.Gt) else not gt), s4))
                return out
            r = self.less(b, a, st, node)
            return r if isinstance(op, ast.Gt) else self.negate(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st, node)
            return r if isinstance(op, ast.In) else self.negate(r)
        return [(TOP, st)]

    def negate(self, res):
        out = []
        for v, s in res:
            if is_raise(v):
                out.append((v, s))
            elif is_c(v):
                out.append((B(not v[2]), s))
            else:
                out.append((T('not', v), s))
        return out

    def contains(self, coll, x, st, node):
        if coll[0] == 'o':
            o = st.heap[coll[1]]
            if o.kind == 'inst' and o.cls in self.p.classes:
                m = self.p.classes[o.cls].find_method('__contains__')
                if m is not None:
                    return self.call_func(m, [coll, x], {}, st, node)
            if o.kind in ('list', 'set', 'dict'):
                keys = [i if not isinstance(i, tuple) or is_gap(i) else i for i in o.items]
                if o.kind == 'dict':
                    keys = [i if is_gap(i) else i[0] for i in o.items]
                gaps = [k for k in keys if is_gap(k)]
                expl = [k for k in keys if not is_gap(k)]
                return self._contains_items(expl, gaps, x, coll, st, node)
        if coll[0] == 'tup':
            return self._contains_items(list(coll[1]), [], x, coll, st, node)
        if is_c(coll) and isinstance(coll[2], str) and is_c(x) and isinstance(x[2], str):
            return [(B(x[2] in coll[2]), st)]
        if coll[0] == 'cat' and is_c(x):
            if any(is_c(q) and x[2] in q[2] for q in coll[1]):
                return [(TRUE, st)]
            if len(x[2]) == 1 and all(is_c(q) or self.atomic(q, x[2]) for q in coll[1]):
                return [(FALSE, st)]
        if is_c(x) and isinstance(x[2], str) and coll[0] == 's' and self.atomic(coll, x[2]):
            return [(FALSE, st)]
        return [(T('in', x, coll), st)]

    def _contains_items(self, expl, gaps, x, coll, st, node):
        results = [(None, st)]
        for k in expl:
            nxt = []
            for v, s in results:
                if v is not None:
                    nxt.append((v, s))
                    continue
                if k == x and not (x[0] == 'o' and s.heap[x[1]].weak):
                    nxt.append((TRUE, s))
                    continue
                for r, s2 in self.eq(k, x, s, node):
                    if is_raise(r):
                        nxt.append((r, s2))
                        continue
                    for t, s3 in self.truth(r, s2):
                        nxt.append((TRUE if t else None, s3))
            results = nxt
        out = []
        for v, s in results:
            if v is not None:
                out.append((v, s))
            elif not gaps:
                out.append((FALSE, s))
            elif x[0] == 'o' and not s.heap[x[1]].weak and all(self.gap_excludes(g, x, s) for g in gaps):
                out.append((FALSE, s))
            elif x[0] in ('s', 'cat') and self.tracked_key(x, gaps):
                out.append((FALSE, s))
            elif x[0] == 'o' and s.heap[x[1]].weak and len(expl) == 0 and any(g[2] == x for g in gaps) and \
                    coll[0] == 'o':
                out.append((TRUE, s))
            else:
                out.append((T('in', x, ('snap', tuple(sorted(map(repr, list(expl) + gaps))))), s))
        return out

    def gap_excludes(self, g, x, st):
        """Tracked objects are never among the unknown elements of a gap."""
        return True

    def tracked_key(self, x, gaps):
        return x[0] == 's' and x[1].startswith('key:')

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        self.tick()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(TOP, st)]
        return m(e, fr, st)

    def ev_Constant(self, e, fr, st):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            return [(S(f'const:{e.value!r}', 'obj'), st)]
        return [(C(e.value), st)]

    def ev_Name(self, e, fr, st):
        v = self.lookup(e.id, fr, st)
        if v is None:
            f = st.heap[fr].tag[2]
            loc = self.local_names(f)
            if e.id in loc:
                return [(self.exc('UnboundLocalError', e, e.id), st)]
            return [(self.exc('NameError', e, e.id), st)]
        return [(v, st)]

    def local_names(self, fnode):
        if fnode is None:
            return ()
        r = self.locals_cache.get(fnode)
        if r is None:
            r = self.locals_cache[fnode] = local_bindings(fnode)
        return r

    def ev_NamedExpr(self, e, fr, st):
        out = []
        for v, s in self.ev(e.value, fr, st):
            if not is_raise(v):
                s = s.fork()
                s.w(fr).attrs[e.target.id] = v
            out.append((v, s))
        return out

    def ev_Attribute(self, e, fr, st):
        return self.bind(self.ev(e.value, fr, st), lambda v, s: self.getattr(v, e.attr, s, e))

    def ev_IfExp(self, e, fr, st):
        def f(v, s):
            out = []
            for t, s2 in self.truth(v, s, e):
                if not isinstance(t, bool):
                    out.append((t, s2))
                else:
                    out.extend(self.ev(e.body if t else e.orelse, fr, s2))
            return out
        return self.bind(self.ev(e.test, fr, st), f)

    def ev_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            res = self.ev(e.values[i], fr, s)
            if i == len(e.values) - 1:
                return res
            out = []
            for v, s2 in res:
                if is_raise(v):
                    out.append((v, s2))
                    continue
                for t, s3 in self.truth(v, s2, e):
                    if not isinstance(t, bool):
                        out.append((t, s3))
                    elif t == isand:
                        out.extend(rec(i + 1, s3))
                    else:
                        if v[0] in ('t',) and v[1] in ('eq', 'lt', 'not', 'in', 'is', 'isinstance') or v[0] == 's' and v[2] == 'bool':
                            v = B(t)
                        out.append((v, s3))
            return out
        return rec(0, st)

    def ev_UnaryOp(self, e, fr, st):
        def f(v, s):
            if isinstance(e.op, ast.Not):
                return [(B(not t) if isinstance(t, bool) else t, s2) for t, s2 in self.truth(v, s, e)]
            if isinstance(e.op, ast.USub):
                r = add(C(0), v, -1)
                return [(r if r is not None else TOP, s)]
            return [(v if isinstance(e.op, ast.UAdd) else TOP, s)]
        return self.bind(self.ev(e.operand, fr, st), f)

    def ev_Compare(self, e, fr, st):
        def chain(i, left, s):
            def g(right, s2):
                res = self.compare(e.ops[i], left, right, s2, e)
                if i == len(e.ops) - 1:
                    return res
                out = []
                for v, s3 in res:
                    if is_raise(v):
                        out.append((v, s3))
                        continue
                    for t, s4 in self.truth(v, s3):
                        if t is True:
                            out.extend(chain(i + 1, right, s4))
                        else:
                            out.append((FALSE if t is False else t, s4))
                return out
            return self.bind(self.ev(e.comparators[i], fr, s), g)
        return self.bind(self.ev(e.left, fr, st), lambda v, s: chain(0, v, s))

    def ev_BinOp(self, e, fr, st):
        out = []
        for vals, s in self.many([e.left, e.right], fr, st):
            if isinstance(vals, tuple):
                out.append((vals, s))
            else:
                out.extend(self.binop(e.op, vals[0], vals[1], s, e, fr))
        return out

    def is_str(self, v):
        return v[0] in ('cat', 'join') or v[0] == 'c' and v[1] == 'str' or v[0] == 's' and v[2] == 'str' or \
            v[0] == 't' and v[1] in ('str', 'strmeth')

    def binop(self, op, a, b, st, node, fr):
        if isinstance(op, ast.Add):
            if self.is_str(a) or self.is_str(b):
                return [(cat([a, b]), st)]
            if a[0] == 'tup' and b[0] == 'tup':
                return [(('tup', a[1] + b[1]), st)]
            if a[0] == 'o' and b[0] == 'o' and st.heap[a[1]].kind == 'list':
                s = st.fork()
                v = s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=norm_items(s.heap[a[1]].items + self.seq_items(b, s)), fresh=True))
                return [(v, s)]
            r = add(a, b)
            return [(r if r is not None else TOP, st)]
        if isinstance(op, ast.Sub):
            if a[0] == 'o' and st.heap[a[1]].kind == 'set':
                s = st.fork()
                items = self.seq_items(b, s)
                keep = tuple(x for x in s.heap[a[1]].items if is_gap(x) or x not in items)
                return [(s.new(f'X{node.lineno}:{node.col_offset}', Obj('set', items=keep, fresh=True)), s)]
            r = add(a, b, -1)
            return [(r if r is not None else TOP, st)]
        if isinstance(op, ast.Mod) and self.is_str(a):
            return [(T('fmt', a, b), st)]
        if isinstance(op, ast.BitOr) and a[0] == 'o' and st.heap[a[1]].kind == 'set':
            s = st.fork()
            items = norm_items(s.heap[a[1]].items + self.seq_items(b, s), True)
            return [(s.new(f'X{node.lineno}:{node.col_offset}', Obj('set', items=items, fresh=True)), s)]
        if is_c(a) and is_c(b):
            try:
                import operator
                f = {ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
                     ast.Div: operator.truediv}.get(type(op))
                if f:
                    return [(C(f(a[2], b[2])), st)]
            except Exception:
                pass
        return [(T('op' + type(op).__name__, a, b), st)]

    def ev_JoinedStr(self, e, fr, st):
        exprs = []
        for v in e.values:
            exprs.append(v.value if isinstance(v, ast.FormattedValue) else v)
        out = []
        for vals, s in self.many(exprs, fr, st):
            if isinstance(vals, tuple):
                out.append((vals, s))
                continue
            acc = [([], s)]
            for orig, v in zip(e.values, vals):
                nxt = []
                for parts, s2 in acc:
                    if isinstance(orig, ast.Constant):
                        nxt.append((parts + [v], s2))
                    else:
                        for r, s3 in self.to_str(v, s2, e):
                            if is_raise(r):
                                out.append((r, s3))
                            else:
                                nxt.append((parts + [r], s3))
                acc = nxt
            for parts, s2 in acc:
                out.append((cat(parts) if parts else C(''), s2))
        return out

    def to_str(self, v, st, node):
        if is_c(v):
            return [(C(str(v[2])), st)]
        if v[0] in ('cat', 'join') or v[0] == 's' and v[2] == 'str':
            return [(v, st)]
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind == 'inst' and o.cls in self.p.classes:
                c = self.p.classes[o.cls]
                m = c.find_method('__str__')
                if m is None:
                    m = c.find_method('__repr__')
                if m is not None and m.qual not in self.opaque and self.depth < self.MAX_DEPTH - 4:
                    return self.call_func(m, [v], {}, st, node)
                return [(S(f'str:{v[1]}', 'str'), st)]
        return [(T('str', v), st)]

    def ev_Tuple(self, e, fr, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(TOP, st)]
        return [(v if isinstance(v, tuple) else ('tup', tuple(v)), s) for v, s in self.many(e.elts, fr, st)]

    def _display(self, e, fr, st, kind):
        out = []
        for vals, s in self.many([x.value if isinstance(x, ast.Starred) else x for x in e.elts], fr, st):
            if isinstance(vals, tuple):
                out.append((vals, s))
                continue
            items = ()
            for x, v in zip(e.elts, vals):
                items += self.seq_items(v, s) if isinstance(x, ast.Starred) else (self.as_item(v, s),)
            s = s.fork()
            out.append((s.new(f'L{e.lineno}:{e.col_offset}', Obj(kind, items=norm_items(items, kind == 'set'), fresh=True, sorted=True if len(items) < 2 and not any(map(is_gap, items)) else None)), s))
        return out

    def ev_List(self, e, fr, st):
        return self._display(e, fr, st, 'list')

    def ev_Set(self, e, fr, st):
        return self._display(e, fr, st, 'set')

    def ev_Dict(self, e, fr, st):
        out = []
        if any(k is None for k in e.keys):
            return [(TOP, st)]
        for vals, s in self.many([x for kv in zip(e.keys, e.values) for x in kv], fr, st):
            if isinstance(vals, tuple):
                out.append((vals, s))
                continue
            s = s.fork()
            items = tuple(('kv', vals[i], vals[i + 1])[1:] for i in range(0, len(vals), 2))
            out.append((s.new(f'D{e.lineno}:{e.col_offset}', Obj('dict', items=items, fresh=True)), s))
        return out

    def as_item(self, v, st):
        """A generic value stored in a collection becomes a gap entry."""
        if v[0] == 'o' and st.heap[v[1]].weak:
            return gap(v[1], v, True)
        if v[0] in ('s', 't', 'cat', 'tup', 'join') and mentions(v, is_generic_sym):
            return gap(('of', v), v, True)
        return v

    def seq_items(self, v, st):
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind in ('list', 'set'):
                return o.items
            if o.kind == 'dict':
                return tuple(i if is_gap(i) else i[0] for i in o.items)
        if v[0] == 'tup':
            return v[1]
        if v[0] == 'seq':
            return v[1]
        return (gap(('unk', v), S(f'elem:{abs(hash(v)) % 10**6}' if False else 'elem:' + repr(v)[:60], '?')),)

    # comprehension
    def ev_ListComp(self, e, fr, st):
        return self.comp(e, fr, st, 'list')

    def ev_SetComp(self, e, fr, st):
        return self.comp(e, fr, st, 'set')

    def ev_GeneratorExp(self, e, fr, st):
        return self.comp(e, fr, st, 'list')

    def ev_DictComp(self, e, fr, st):
        return self.comp(e, fr, st, 'dict')

    def comp(self, e, fr, st, kind):
        # evaluated as nested loops in a fresh frame, collecting items
        st = st.fork()
        cfr = f'K{self.depth}:{e.lineno}:{e.col_offset}'
        st.heap[cfr] = Obj('frame', attrs={}, tag=(st.heap[fr].tag[0], fr, None))
        start_srt = None

        def gen(i, s, acc):
            """list of (items | raise, st)"""
            if i == len(e.generators):
                if kind == 'dict':
                    out = []
                    for vals, s2 in self.many([e.key, e.value], cfr, s):
                        out.append((vals, s2) if isinstance(vals, tuple) and is_raise(vals) else (acc + ((vals[0], vals[1]),), s2))
                    return out
                out = []
                for v, s2 in self.ev(e.elt, cfr, s):
                    if is_raise(v):
                        out.append((v, s2))
                    else:
                        out.append((acc + (self.as_item(v, s2),), s2))
                return out
            g = e.generators[i]
            out = []
            for it, s2 in self.ev(g.iter, cfr, s):
                if is_raise(it):
                    out.append((it, s2))
                    continue
                for items, s3 in self.iterate(it, s2, e):
                    if isinstance(items, tuple) and items and items[0] == '!raise':
                        out.append((items, s3))
                        continue
                    cur = [(acc, s3)]
                    for x in items:
                        nxt = []
                        for a, s4 in cur:
                            if a and a[0] == '!raise':
                                nxt.append((a, s4))
                                continue
                            if is_gap(x):
                                nxt.extend(self.comp_gap(g, x, i, a, s4, cfr, gen, e))
                            else:
                                nxt.extend(self.comp_one(g, x, i, a, s4, cfr, gen))
                        cur = dedupe(nxt) if len(nxt) > 4 else nxt
                        if len(cur) > self.MAX_STATES:
                            raise Undetermined('comprehension states')
                    out.extend(cur)
            return out

        out = []
        for items, s in gen(0, st, ()):
            if items and items[0] == '!raise':
                out.append((items, s))
                continue
            s = s.fork()
            s.heap.pop(cfr, None)
            srt = None
            if kind == 'list' and len(e.generators) == 1 and isinstance(e.elt, ast.Name) and \
                    isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id:
                # filtering keeps the order of the source
                for it, _ in self.ev(e.generators[0].iter, fr, s.fork()):
                    if it[0] == 'o':
                        srt = s.heap[it[1]].sorted if it[1] in s.heap else None
                    break
            if kind == 'dict':
                d = []
                for kv in items:
                    if kv[0] == 'gap':
                        d.append(kv)
                        continue
                    d = [x for x in d if is_gap(x) or x[0] != kv[0]]
                    d.append(kv)
                out.append((s.new(f'D{e.lineno}:{e.col_offset}', Obj('dict', items=tuple(d), fresh=True)), s))
            else:
                out.append((s.new(f'L{e.lineno}:{e.col_offset}',
                                  Obj(kind, items=norm_items(items, kind == 'set'), fresh=True, sorted=srt)), s))
        return out

    def comp_one(self, g, x, i, acc, st, cfr, gen):
        out = []
        for flow, s in self.assign(g.target, x, cfr, st):
            if flow is not None:
                out.append((flow[1:] if False else ('!raise',) + flow[1:], s))
                continue
            out.extend(self.comp_ifs(g.ifs, s, cfr, lambda s2: gen(i + 1, s2, acc), acc))
        return out

    def comp_ifs(self, ifs, st, cfr, then, acc):
        cur = [(True, st)]
        for cond in ifs:
            nxt = []
            for ok, s in cur:
                if ok is not True:
                    nxt.append((ok, s))
                    continue
                for v, s2 in self.ev(cond, cfr, s):
                    if is_raise(v):
                        nxt.append((v, s2))
                    else:
                        nxt.extend(self.truth(v, s2, cond))
            cur = nxt
        out = []
        for ok, s in cur:
            if ok is True:
                out.extend(then(s))
            elif ok is False:
                out.append((acc, s))
            else:
                out.append((ok, s))
        return out

    def comp_gap(self, g, x, i, acc, st, cfr, gen, e):
        """Unknown elements: the result has a gap; facts about the generic element are dropped."""
        elem = x[2]
        results = []
        for flow, s in self.assign(g.target, elem, cfr, st.fork()):
            if flow is not None:
                results.append((('!raise',) + flow[1:], s))
                continue
            results.extend(self.comp_ifs(g.ifs, s, cfr, lambda s2: gen(i + 1, s2, ()), ()))
        kept, raised = [], []
        always = bool(results)
        for items, s in results:
            if items and items[0] == '!raise':
                raised.append((items, s))
                always = False
            elif items:
                kept.append(items)
            else:
                always = False
        out = list(raised)
        if not kept:
            out.append((acc, st))
            return out
        elems = {it for items in kept for it in items}
        if len(elems) == 1:
            it = next(iter(elems))
            if is_gap(it):
                ng = it[:3] + (x[3] and always and it[3],)
            elif it == elem:
                ng = (x[0], x[1], x[2], x[3] and always)
            else:
                ng = ('gap', ('map', x[1], it), it, x[3] and always)
        else:
            rs = set()
            for it in list(elems) + [elem]:
                roots_of(it, rs)
            ng = ('gap', ('map', x[1], e.lineno, e.col_offset),
                  T('map', e.lineno, e.col_offset, *[S(r, '?') for r in sorted(rs)]), x[3] and always)
        out.append((acc + (ng,), st))
        return out

    def iterate(self, it, st, node):
        """list of (tuple of items (values and gaps) | raise, st)"""
        if it[0] == 'o':
            o = st.heap[it[1]]
            if o.kind in ('list', 'set'):
                return [(o.items, st)]
            if o.kind == 'dict':
                return [(tuple(i if is_gap(i) else i[0] for i in o.items), st)]
            if o.kind == 'inst' and o.cls in self.p.classes:
                m = self.p.classes[o.cls].find_method('__iter__')
                if m is not None:
                    out = []
                    for r, s in self.call_func(m, [it], {}, st, node):
                        if is_raise(r):
                            out.append((r, s))
                        else:
                            out.extend(self.iterate(r, s, node))
                    return out
        if it[0] == 'tup':
            return [(it[1], st)]
        if it[0] == 'seq':
            return [(it[1], st)]
        if it[0] == 'c' and isinstance(it[2], str):
            return [(tuple(C(ch) for ch in it[2][:20]), st)]
        return [(self.seq_items(it, st), st)]

    def ev_Lambda(self, e, fr, st):
        return [(('lam', LamRef(e), fr), st)]

    def ev_Starred(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_Yield(self, e, fr, st):
        out = []
        for v, s in (self.ev(e.value, fr, st) if e.value else [(NONE, st)]):
            if is_raise(v):
                out.append((v, s))
                continue
            s = s.fork()
            top = self.gen_frame(fr, s)
            o = s.w(top)
            o.attrs['@yields'] = ('seq', norm_items(o.attrs.get('@yields', ('seq', ()))[1] + (self.as_item(v, s),)))
            out.append((NONE, s))
        return out

    def gen_frame(self, fr, st):
        while st.heap[fr].tag[2] is None:
            fr = st.heap[fr].tag[1]
        return fr

    def ev_Subscript(self, e, fr, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [e.slice.lower, e.slice.upper, e.slice.step]
            exprs = [e.value] + [x for x in parts if x is not None]
            for vals, s in self.many(exprs, fr, st):
                if isinstance(vals, tuple):
                    out.append((vals, s))
                    continue
                it = iter(vals[1:])
                sl = [next(it) if x is not None else NONE for x in parts]
                out.extend(self.slice(vals[0], sl, s, e))
            return out
        for vals, s in self.many([e.value, e.slice], fr, st):
            if isinstance(vals, tuple):
                out.append((vals, s))
            else:
                out.extend(self.getitem(vals[0], vals[1], s, e))
        return out

    def slice(self, v, sl, st, node):
        lo, hi, step = sl
        if v[0] == 'o' and st.heap[v[1]].kind == 'list':
            o = st.heap[v[1]]
            s = st.fork()
            if lo == NONE and hi == NONE and step == NONE:
                return [(s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=o.items, fresh=True, sorted=o.sorted)), s)]
            if not any(is_gap(i) for i in o.items) and all(x == NONE or is_c(x) for x in sl):
                items = o.items[slice(lo[2], hi[2], step[2])]
                return [(s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=items, fresh=True, sorted=o.sorted)), s)]
            a, b = cut_at(o.items, lo, 0), cut_at(o.items, hi, len(o.items))
            if step == NONE and a is not None and b is not None:
                return [(s.new(f'L{node.lineno}:{node.col_offset}',
                               Obj('list', items=o.items[a:b], fresh=True, sorted=o.sorted)), s)]
            # keep what is certainly inside, everything else unknown
            tag = ('slice', v[1], lo, hi, step)
            items = []
            for i in o.items:
                if is_gap(i):
                    items.append(i[:3] + (False,))
                else:
                    items.append(('gap', ('maybe', i), i, False))
            if lo == C(1) and hi == NONE and step == NONE and o.items:
                items = list(o.items[1:]) if not is_gap(o.items[0]) else items
            res = s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=tuple(items), fresh=True,
                                                                   sorted=o.sorted if step == NONE else None, tag=tag))
            return [(res, s)]
        if v[0] == 'tup' and all(x == NONE or is_c(x) for x in sl):
            return [(('tup', v[1][slice(lo[2], hi[2], step[2])]), st)]
        if is_c(v) and isinstance(v[2], str) and all(is_c(x) for x in sl):
            return [(C(v[2][slice(lo[2], hi[2], step[2])]), st)]
        return [(T('slice', self.snap(v, st), lo, hi, step), st)]

    def snap(self, v, st):
        if v[0] == 'o' and st.heap[v[1]].kind in ('list', 'set', 'dict'):
            return ('snap', st.heap[v[1]].items)
        return v

    def getitem(self, v, k, st, node):
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind == 'inst' and o.cls in self.p.classes:
                m = self.p.classes[o.cls].find_method('__getitem__')
                if m is not None:
                    return self.call_func(m, [v, k], {}, st, node)
            if o.kind == 'dict':
                return self.dict_get(v[1], k, st, node, missing='KeyError')
            if o.kind == 'list':
                return self.list_index(v[1], k, st, node)
        if v[0] == 'tup' and is_c(k) and isinstance(k[2], int):
            try:
                return [(v[1][k[2]], st)]
            except IndexError:
                return [(self.exc('IndexError', node), st)]
        if v[0] == 'seq' and is_c(k):
            tmp = st.fork()
            tmp.heap['@tmp'] = Obj('list', items=v[1])
            return self.list_index('@tmp', k, tmp, node)
        return [(T('item', self.snap(v, st), k), st)]

    def list_index(self, oid, k, st, node):
        o = st.heap[oid]
        items = o.items
        if is_c(k) and isinstance(k[2], int):
            n = k[2]
            if not any(is_gap(i) for i in items):
                try:
                    return [(items[n], st)]
                except IndexError:
                    return [(self.exc('IndexError', node), st)]
            seq = items if n >= 0 else items[::-1]
            need = n if n >= 0 else -n - 1
            out = []
            # walk from the end, forking on whether a gap is empty
            def walk(idx, skip, s):
                if idx >= len(seq):
                    out.append((self.exc('IndexError', node), s))
                    return
                x = seq[idx]
                if is_gap(x):
                    if not x[3]:
                        s1 = s.fork()
                        s1.facts[T('gapempty', O(oid), x[1:2], C(n))] = True
                        self._drop_gap(s1, oid, x)
                        walk(idx + 1, skip, s1)
                    s2 = s.fork()
                    self._set_nonempty(s2, oid, x)
                    out.append((x[2], s2))
                elif skip == 0:
                    out.append((x, s))
                else:
                    walk(idx + 1, skip - 1, s)
            if oid in st.heap:
                walk(0, need, st)
            for _, s in out:
                s.facts = {f: b for f, b in s.facts.items() if f[1] != 'gapempty'}
            return out
        if k[0] == 'lin':
            at = cut_at(items, k, None)
            if at is not None and at < len(items) and not is_gap(items[at]):
                return [(items[at], st)]
        # unknown index: any element
        if self.fork_index and not any(is_gap(i) for i in items):
            out, rest = [], st
            for j, x in enumerate(items):
                nxt = None
                for t, s2 in self.atom(T('eq', *sorted((k, C(j)), key=repr)), rest):
                    if t:
                        out.append((x, s2))
                    else:
                        nxt = s2
                if nxt is None:
                    return out
                rest = nxt
            out.append((self.exc('IndexError', node), rest))
            return out
        return [(T('item', ('snap', items), k), st)]

    def _drop_gap(self, st, oid, g):
        if oid == '@tmp':
            return
        o = st.w(oid)
        o.items = tuple(x for x in o.items if x != g)

    def _set_nonempty(self, st, oid, g):
        o = st.w(oid)
        o.items = tuple((x[:3] + (True,)) if x == g else x for x in o.items)

    def dict_get(self, oid, k, st, node, missing=None, default=NONE):
        o = st.heap[oid]
        out = []
        cur = [st]
        for ent in o.items:
            if is_gap(ent):
                continue
            nxt = []
            for s in cur:
                for r, s2 in self.eq(ent[0], k, s, node):
                    if is_raise(r):
                        out.append((r, s2))
                        continue
                    for t, s3 in self.truth(r, s2):
                        if t:
                            out.append((ent[1], s3))
                        else:
                            nxt.append(s3)
            cur = nxt
        gaps = [g for g in o.items if is_gap(g)]
        for s in cur:
            if gaps and not self.tracked_key(k, gaps) and not (is_c(k) and gaps[0][1] == 'nonconst'):
                out.append((T('item', ('snapd', oid), k), s.fork()))
            if missing:
                out.append((self.exc(missing, node), s))
            else:
                out.append((default, s))
        return out

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st, node):
        k = v[0]
        if k == 'o':
            o = st.heap[v[1]]
            if o.kind == 'inst':
                c = self.p.classes.get(o.cls)
                if c is not None:
                    hit = c.lookup(name)
                    if hit is not None and hit[0] == 'prop':
                        g = hit[1][0]
                        if g is None:
                            # setter-only override: look for an inherited getter
                            g = c.find_getter(name)
                        if g is not None:
                            return self.call_func(g, [v], {}, st, node)
                    if name in o.attrs:
                        return [(o.attrs[name], st)]
                    if hit is not None and hit[0] == 'method':
                        f = hit[1]
                        if f.is_static:
                            return [(('fn', f.key, None, None), st)]
                        return [(('fn', f.key, ('cls', o.cls) if f.is_classmethod else v, None), st)]
                    if hit is not None and hit[0] == 'attr':
                        ex = hit[1]
                        if isinstance(ex, ast.Constant):
                            return [(C(ex.value), st)]
                        return [(S(f'{hit[2].qual}.{name}', 'obj'), st)]
                    if name == '__class__':
                        return [(('cls', o.cls), st)]
                    if name == '__dict__':
                        return [(TOP, st)]
                    if name in MAPPING_MIXIN and any(str(b).endswith('Mapping') for b in c.external_bases()):
                        return [(('mixin', v, name), st)]
                    if o.fresh and self.known_slots(c) and not name.startswith('__'):
                        return [(self.exc('AttributeError', node, name), st)]
                    if o.weak:
                        return [(S(f'{v[1]}.{name}', '?'), st)]
                    if o.fresh and not name.startswith('__') and set(map(str, c.external_bases())) <= {'object'}:
                        return [(self.exc('AttributeError', node, name), st)]
                    val = S(f'{v[1]}.{name}', '?')
                    s = st.fork()
                    s.w(v[1]).attrs[name] = val
                    return [(val, s)]
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                return [(S(f'{v[1]}.{name}', '?'), st)]
            if o.kind in ('list', 'set', 'dict'):
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                if o.cls in self.p.classes:
                    c = self.p.classes[o.cls]
                    hit = c.lookup(name)
                    if hit and hit[0] == 'method':
                        return [(('fn', hit[1].key, v, None), st)]
                    if hit and hit[0] == 'prop' and hit[1][0]:
                        return self.call_func(hit[1][0], [v], {}, st, node)
                return [(('bm', v, name), st)]
            return [(TOP, st)]
        if k == 'mod':
            r = self.p.resolve_in_module(self.p.modules[v[1]], name)
            if r is None:
                d = self.p.resolve_dotted(v[1] + '.' + name)
                return [(self.wrap(d) if d is not None else TOP, st)]
            return [(self.wrap(r), st)]
        if k == 'ext':
            d = self.p.resolve_dotted(v[1] + '.' + name)
            return [(self.wrap(d) if d is not None else ('ext', v[1] + '.' + name), st)]
        if k == 'cls':
            c = self.p.classes[v[1]]
            hit = c.lookup(name)
            if hit and hit[0] == 'method':
                return [(('fn', hit[1].key, v if hit[1].is_classmethod else None, None), st)]
            if hit and hit[0] == 'attr' and isinstance(hit[1], ast.Constant):
                return [(C(hit[1].value), st)]
            if name == '__name__':
                return [(C(c.name), st)]
            return [(S(f'{v[1]}.{name}', '?'), st)]
        if k == 'super':
            c = self.p.classes[v[1]]
            mro = None
            o = st.heap[v[2][1]] if v[2][0] == 'o' else None
            mro = self.p.classes[o.cls].mro() if o is not None and o.cls in self.p.classes else c.mro()
            idx = mro.index(c) + 1 if c in mro else 1
            for b in mro[idx:]:
                if name in b.methods:
                    return [(('fn', b.methods[name].key, v[2], None), st)]
                if name in b.getters:
                    return self.call_func(b.getters[name], [v[2]], {}, st, node)
            return [(('superext', v[2], name, c.qual), st)]
        if is_c(v) and v[2] is None:
            return [(self.exc('AttributeError', node, f'None.{name}'), st)]
        if k in ('c', 'cat', 'join', 'tup', 's', 't', 'lin', 'seq', 'bi'):
            if k == 's' and v[2] in ('?', 'obj') or k == 't':
                # reading an attribute of an unknown object
                if getattr(self, 'attr_syms', True):
                    return [(('bm', v, name), st)]
            return [(('bm', v, name), st)]
        if k == 'bm':
            return [(('bm', ('s', f'{self.sym_name(v[1])}.{v[2]}', '?'), name), st)]
        if k == 'exc':
            return [(T('excattr', name), st)]
        return [(TOP, st)]

    def sym_name(self, v):
        return v[1] if v[0] == 's' else repr(v)[:80]

    def known_slots(self, c):
        if c.external_bases() and set(map(str, c.external_bases())) - {'object', 'collections.abc.MutableMapping'}:
            return False
        return all(b.slots is not None for b in c.mro())

    def setattr(self, v, name, val, st, node, fr=None):
        """list of (flow, st)"""
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind == 'inst':
                c = self.p.classes.get(o.cls)
                if c is not None:
                    hit = c.lookup(name)
                    if hit is not None and hit[0] == 'prop':
                        setter = hit[1][1]
                        if setter is None:
                            return [(('raise', ('exc', 'AttributeError', f'{name} is read-only'), node.lineno), st)]
                        return [((None if not is_raise(r) else ('raise',) + r[1:]), s)
                                for r, s in self.call_func(setter, [v, val], {}, st, node)]
                    if self.known_slots(c) and not any(name in (b.slots or ()) for b in c.mro()):
                        return [(('raise', ('exc', 'AttributeError', f'no slot {name}'), node.lineno), st)]
                return self.raw_write(v, name, val, st, node)
            s = st.fork()
            if o.kind in ('list', 'set', 'dict') and not o.weak:
                s.w(v[1]).attrs[name] = val
            return [(None, s)]
        s = st.fork()
        s.ev('write?', v, name, val, node.lineno)
        if self.hook is not None and hasattr(self.hook, 'unknown_write'):
            self.hook.unknown_write(self, v, name, val, s, node)
        return [(None, s)]

    def raw_write(self, v, name, val, st, node):
        s = st.fork()
        old = s.heap[v[1]].attrs.get(name)
        if self.hook is not None and hasattr(self.hook, 'write'):
            self.hook.write(self, v, name, old, val, s, node)
        s.ev('write', v[1], name, val, node.lineno)
        if not s.heap[v[1]].weak:
            s.w(v[1]).attrs[name] = val
        return [(None, s)]

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, fr, st):
        out = []
        for fv, s in self.ev_callee(e.func, fr, st):
            if is_raise(fv):
                out.append((fv, s))
                continue
            argexprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            for vals, s2 in self.many(argexprs, fr, s):
                if isinstance(vals, tuple):
                    out.append((vals, s2))
                    continue
                args, kwargs, star = [], {}, False
                for a, v in zip(e.args, vals):
                    if isinstance(a, ast.Starred):
                        items = self.seq_items(v, s2)
                        if any(is_gap(i) for i in items):
                            star = True
                        else:
                            args.extend(items)
                    else:
                        args.append(v)
                for kw, v in zip(e.keywords, vals[len(e.args):]):
                    if kw.arg is None:
                        if v[0] == 'o' and s2.heap[v[1]].kind == 'dict':
                            for ent in s2.heap[v[1]].items:
                                if is_gap(ent):
                                    kwargs.setdefault('**', v)
                                elif is_c(ent[0]):
                                    kwargs[ent[0][2]] = ent[1]
                        else:
                            kwargs['**'] = v
                    else:
                        kwargs[kw.arg] = v
                if star:
                    kwargs['*'] = TOP
                out.extend(self.call(fv, args, kwargs, s2, e, fr))
        return out

    def ev_callee(self, e, fr, st):
        if isinstance(e, ast.Name) and e.id == 'super' and self.lookup('super', fr, st) == ('bi', 'super'):
            return [(('bi', 'super'), st)]
        return self.ev(e, fr, st)

    def call(self, fv, args, kwargs, st, node, fr=None):
        k = fv[0]
        if k == 'fn':
            f = self.p.functions[fv[1]]
            if fv[2] is not None:
                args = [fv[2]] + args
            return self.call_func(f, args, kwargs, st, node, closure=fv[3])
        if k == 'lam':
            return self.call_lambda(fv, args, kwargs, st, node)
        if k == 'cls':
            return self.instantiate(fv[1], args, kwargs, st, node)
        if k == 'exccls':
            return [(('exc', fv[1], tuple(args)), st)]
        if k == 'bi':
            return self.call_builtin(fv[1], args, kwargs, st, node, fr)
        if k == 'bm':
            return self.call_method(fv[1], fv[2], args, kwargs, st, node)
        if k == 'ext':
            return self.call_ext(fv[1], args, kwargs, st, node)
        if k == 'mixin':
            return self.call_mixin(fv[1], fv[2], args, kwargs, st, node)
        if k == 'superext':
            o = st.heap[fv[1][1]] if fv[1][0] == 'o' else None
            if fv[2] == '__init__':
                if o is not None and o.kind == 'list' and args:
                    out = []
                    for items, s in self.iterate(args[0], st, node):
                        if items and items[0] == '!raise':
                            out.append((items, s))
                            continue
                        s = s.fork()
                        l = s.w(fv[1][1])
                        l.items = norm_items(items)
                        l.sorted = s.heap[args[0][1]].sorted if args[0][0] == 'o' else None
                        out.append((NONE, s))
                    return out
                return [(NONE, st)]
            if o is not None and o.kind == 'list':
                return self.list_method(fv[1], fv[2], args, kwargs, st, node)
            return [(TOP, st)]
        if k == 'o':
            o = st.heap[fv[1]]
            c = self.p.classes.get(o.cls)
            m = c.find_method('__call__') if c else None
            if m is not None:
                return self.call_func(m, [fv] + args, kwargs, st, node)
        self.escape(args, kwargs, st, f'call of unknown value {repr(fv)[:60]}')
        return [(TOP, st)]

    def call_mixin(self, v, name, args, kwargs, st, node):
        """Methods inherited from collections.abc.(Mutable)Mapping, by their documented definitions."""
        if name == 'get':
            return self.getitem(v, args[0], st, node)
        if name == 'pop':
            out = []
            for r, s in self.getitem(v, args[0], st, node):
                if is_raise(r):
                    out.append((args[1], s) if len(args) > 1 else (r, s))
                    continue
                m = self.p.classes[s.heap[v[1]].cls].find_method('__delitem__')
                for r2, s2 in self.call_func(m, [v, args[0]], {}, s, node):
                    out.append((r2 if is_raise(r2) else r, s2))
            return out
        if name in ('keys', 'items', 'values'):
            out = []
            for items, s in self.iterate(v, st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                cur = [((), s)]
                for k in items:
                    nxt = []
                    for acc, s2 in cur:
                        if is_gap(k) or name == 'keys':
                            nxt.append((acc + (k,), s2))
                            continue
                        for r, s3 in self.getitem(v, k, s2, node):
                            if is_raise(r):
                                out.append((r, s3))
                            else:
                                nxt.append((acc + ((('tup', (k, r)) if name == 'items' else r),), s3))
                    cur = nxt
                out.extend((('seq', acc), s2) for acc, s2 in cur)
            return out
        if name == 'setdefault':
            out = []
            for r, s in self.contains(v, args[0], st, node):
                for t, s2 in self.truth(r, s):
                    if t:
                        out.extend(self.getitem(v, args[0], s2, node))
                    else:
                        for fl, s3 in self.setitem(v, args[0], args[1] if len(args) > 1 else NONE, s2, node):
                            out.append((NONE if fl is None else ('!raise',) + fl[1:], s3))
            return out
        if name == 'update' and args:
            out = []
            for items, s in self.iterate(args[0], st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                cur = [s]
                for k in items:
                    nxt = []
                    for s2 in cur:
                        key = k[2] if is_gap(k) else k
                        vals = [(S('dictval', '?'), s2)] if is_gap(k) else self.getitem(args[0], key, s2, node)
                        for val, s3 in vals:
                            for fl, s4 in self.setitem(v, key, val, s3, node):
                                nxt.append(s4) if fl is None else out.append((('!raise',) + fl[1:], s4))
                    cur = nxt
                out.extend((NONE, s2) for s2 in cur)
            return out
        s = st.fork()
        self.escape([v], {}, s, f'mapping mixin {name}')
        return [(TOP, s)]

    def escape(self, args, kwargs, st, why):
        """Arguments handed to code we do not see."""
        for v in list(args) + list(kwargs.values()):
            for oid in oids(v):
                if oid in st.heap and st.heap[oid].kind == 'inst' and not st.heap[oid].weak:
                    st.taint(why)
                    return

    def call_lambda(self, fv, args, kwargs, st, node):
        lam, cfr = fv[1].node, fv[2]
        if cfr not in st.heap:
            return [(TOP, st)]
        s = st.fork()
        lfr = f'F{self.depth}:lam{lam.lineno}:{lam.col_offset}'
        attrs = {}
        names = [a.arg for a in lam.args.args]
        for n, v in zip(names, args):
            attrs[n] = v
        for n, v in kwargs.items():
            attrs[n] = v
        for n in names:
            attrs.setdefault(n, TOP)
        s.heap[lfr] = Obj('frame', attrs=attrs, tag=(s.heap[cfr].tag[0], cfr, lam))
        self.depth += 1
        try:
            res = self.ev(lam.body, lfr, s)
        finally:
            self.depth -= 1
        out = []
        for v, s2 in res:
            s2 = s2.fork()
            s2.heap.pop(lfr, None)
            out.append((v, s2))
        return out

    def bind_args(self, f, args, kwargs, st, node):
        """dict name->value, or raise tuple, or None when unknown."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if '*' in kwargs:
            kwargs = dict(kwargs)
            kwargs.pop('*')
            for n in names[len(args):]:
                env[n] = TOP
        if len(args) > len(names):
            if a.vararg is None:
                return self.exc('TypeError', node, f'too many arguments for {f.qual}')
        for n, v in zip(names, args):
            env[n] = v
        extra = dict(kwargs)
        unk = extra.pop('**', None)
        for n in list(extra):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                env[n] = extra.pop(n)
        if a.vararg is not None:
            env[a.vararg.arg] = ('tup', tuple(args[len(names):]))
        if a.kwarg is not None:
            items = tuple((C(k), v) for k, v in sorted(extra.items()))
            if unk is not None:
                items += st.heap[unk[1]].items if unk[0] == 'o' else (gap('kwargs', S('kwargs', '?')),)
            env[a.kwarg.arg] = ('@dict', items)
        elif extra:
            return self.exc('TypeError', node, f'unexpected keyword {sorted(extra)} for {f.qual}')
        defaults = a.defaults
        for i, d in enumerate(defaults):
            n = names[len(names) - len(defaults) + i]
            if n not in env:
                env[n] = ('@default', d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = ('@default', d)
        for n in names:
            if n not in env:
                if unk is not None:
                    env[n] = TOP
                else:
                    return self.exc('TypeError', node, f'missing argument {n} of {f.qual}')
        return env

    def call_func(self, f, args, kwargs, st, node, closure=None):
        self.tick()
        model = self.models.get(f.key)
        if model is not None:
            r = model(self, args, kwargs, st, node)
            if r is not None:
                return r
        if self.hook is not None and hasattr(self.hook, 'call'):
            r = self.hook.call(self, f, args, kwargs, st, node)
            if r is not None:
                return r
        if f.key in self.opaque or f.qual in self.opaque:
            return [(T('call', f.qual, *args), st)]
        if self.depth >= self.MAX_DEPTH or self.stack.count(f.key) >= self.recursion:
            s = st.fork()
            self.escape(args, kwargs, s, f'inlining bound at {f.qual}')
            return [(TOP, s)]
        env = self.bind_args(f, args, kwargs, st, node)
        if isinstance(env, tuple):
            return [(env, st)]
        s = st.fork()
        fr = f'F{self.depth}:{f.key}'
        parent = closure
        # closure of nested functions: the defining frame if still alive
        s.heap[fr] = Obj('frame', attrs={}, tag=(f.module, parent, f.node))
        vals = {}
        for n, v in env.items():
            if v[0] == '@dict':
                v = s.new(f'KW{self.depth}:{f.key}', Obj('dict', items=v[1], fresh=True))
            elif v[0] == '@default':
                r = self.ev(v[1], self.module_frame(f.module, s), s)
                v, s = r[0]
                if v[0] == 'o' and v[1] in s.heap:
                    # shared mutable default: one object per function
                    pass
            vals[n] = v
        s.heap[fr] = Obj('frame', attrs=vals, tag=(f.module, parent, f.node))
        self.inlined.add(f.key)
        self.depth += 1
        self.stack.append(f.key)
        is_gen = self.is_generator(f)
        try:
            res = self.block(f.node.body, fr, s)
        finally:
            self.depth -= 1
            self.stack.pop()
        out = []
        for flow, s2 in res:
            s2 = s2.fork()
            ys = s2.heap[fr].attrs.get('@yields', ('seq', ())) if is_gen else None
            keep = fr in self._captured(s2, fr)
            if not keep:
                s2.heap.pop(fr, None)
            if flow is None:
                out.append((ys if is_gen else NONE, s2))
            elif flow[0] == 'ret':
                out.append((ys if is_gen else flow[1], s2))
            elif flow[0] == 'raise':
                out.append((('!raise',) + flow[1:], s2))
            else:
                out.append((NONE, s2))
        out = self.gc(out, st)
        if len(out) > 1:
            out = dedupe(out)
        if len(out) > self.MAX_STATES:
            raise Undetermined(f'too many states in {f.qual}')
        return out

    def gc(self, out, st):
        base = set(st.heap)
        res = []
        for v, s in out:
            if len(s.heap) > len(base):
                s = s.fork()
                s.collect(base, (v,))
            res.append((v, s))
        return res

    def collect(self, st, base, flow):
        if all(o in base for o in st.heap):
            return st
        st = st.fork()
        st.collect(base, tuple(x for x in (flow or ()) if isinstance(x, tuple)))
        return st

    def _captured(self, st, fr):
        return ()

    def is_generator(self, f):
        g = getattr(f, '_gen', None) if hasattr(f, '_gen') else None
        cache = self.locals_cache
        key = ('gen', f.node)
        if key not in cache:
            from .project import own_nodes
            cache[key] = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node))
        return cache[key]

    def module_frame(self, module, st):
        name = f'M:{module.name}'
        if name not in st.heap:
            st.heap[name] = Obj('frame', attrs={}, tag=(module, None, None))
        return name

    def instantiate(self, qual, args, kwargs, st, node):
        c = self.p.classes[qual]
        s = st.fork()
        model = self.models.get(qual)
        if model is not None:
            r = model(self, args, kwargs, s, node)
            if r is not None:
                return r
        ext = [str(b) for b in c.external_bases()]
        if any(b in BUILTIN_EXC for b in ext):
            return [(('exc', qual, tuple(args)), st)]
        name = f'I:{c.name}@{node.lineno}:{node.col_offset}'
        attrs = {}
        v = s.new(name, Obj('inst', cls=qual, attrs=attrs, fresh=True))
        if 'list' in ext:
            # a list subclass is modelled as a list object carrying attributes and the class
            s.heap[v[1]] = Obj('list', cls=qual, items=(), fresh=True, sorted=True)
        init = c.find_method('__init__')
        if init is None:
            return [(v, s)]
        return [((v if not is_raise(r) else r), s2) for r, s2 in self.call_func(init, [v] + args, kwargs, s, node)]

    # ------------------------------------------------------------ builtins
    def call_builtin(self, name, args, kwargs, st, node, fr):
        a0 = args[0] if args else None
        if name == 'super':
            f = self._frame_func(fr, st)
            if args:
                if args[0][0] == 'cls':
                    return [(('super', args[0][1], args[1]), st)]
                return [(TOP, st)]
            func = self.p.func_of_node.get(f)
            if func is None or func.cls is None:
                return [(TOP, st)]
            selfv = st.heap[self.gen_frame(fr, st)].attrs.get(func.params[0])
            return [(('super', func.cls.qual, selfv), st)]
        if name == 'isinstance':
            return self.isinstance(a0, args[1], st, node)
        if name == 'len' and a0 is not None:
            if a0[0] == 'o':
                o = st.heap[a0[1]]
                if o.kind == 'inst' and o.cls in self.p.classes:
                    m = self.p.classes[o.cls].find_method('__len__')
                    if m is not None:
                        return self.call_func(m, [a0], {}, st, node)
                if o.kind in ('list', 'set', 'dict'):
                    if not any(is_gap(i) for i in o.items):
                        return [(C(len(o.items)), st)]
                    n = sum(1 for i in o.items if not is_gap(i))
                    total = C(n)
                    for i in o.items:
                        if is_gap(i):
                            total = add(total, T('gaplen', i[1]))
                    return [(total, st)]
            if a0[0] == 'tup':
                return [(C(len(a0[1])), st)]
            if is_c(a0) and isinstance(a0[2], str):
                return [(C(len(a0[2])), st)]
            return [(T('len', self.snap(a0, st)), st)]
        if name in ('list', 'tuple', 'sorted', 'reversed', 'set', 'frozenset', 'iter'):
            if not args:
                s = st.fork()
                kind = 'set' if 'set' in name else 'list'
                return [(s.new(f'L{node.lineno}:{node.col_offset}', Obj(kind, fresh=True, sorted=True)), s)]
            out = []
            for items, s in self.iterate(a0, st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                srt = s.heap[a0[1]].sorted if a0[0] == 'o' else None
                if name == 'iter':
                    out.append((('seq', items), s))
                    continue
                if name == 'sorted':
                    srt = True if 'reverse' not in kwargs else None
                    if 'key' in kwargs:
                        srt = self.sort_key_ok(kwargs['key'])
                if name == 'reversed':
                    items, srt = items[::-1], None
                if name == 'tuple' and not any(is_gap(i) for i in items):
                    out.append((('tup', items), s))
                    continue
                s = s.fork()
                kind = 'set' if 'set' in name else 'list'
                out.append((s.new(f'L{node.lineno}:{node.col_offset}', Obj(kind, items=norm_items(items, kind == 'set'), fresh=True, sorted=srt)), s))
            return out
        if name == 'dict':
            s = st.fork()
            items = ()
            if a0 is not None:
                src = a0
                if a0[0] == 'o' and s.heap[a0[1]].kind == 'dict':
                    items = s.heap[a0[1]].items
                elif a0[0] == 'o' and s.heap[a0[1]].kind == 'inst' and s.heap[a0[1]].cls in self.p.classes and \
                        self.p.classes[s.heap[a0[1]].cls].find_method('__iter__') is not None:
                    return self.dict_from_mapping(a0, s, node)
                elif a0[0] in ('s', 't', 'top'):
                    items = (gap(('dictof', a0), S('dictval', '?')),)
                else:
                    its = self.seq_items(a0, s)
                    items = tuple(i if is_gap(i) else (i[1] if i[0] == 'tup' else (TOP, TOP)) for i in its)
            if '**' in kwargs:
                kv = kwargs['**']
                if kv[0] == 'o' and s.heap[kv[1]].kind == 'dict':
                    items = items + s.heap[kv[1]].items
                else:
                    items = items + (gap('kwargs', S('kwargs', '?')),)
            items = items + tuple((C(k), v) for k, v in sorted(kwargs.items()) if k not in ('**', '*'))
            return [(s.new(f'D{node.lineno}:{node.col_offset}', Obj('dict', items=items, fresh=True)), s)]
        if name == 'enumerate':
            start = args[1] if len(args) > 1 else kwargs.get('start', C(0))
            out = []
            for items, s in self.iterate(a0, st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                res, idx, exact = [], start, True
                for it in items:
                    if is_gap(it):
                        res.append(('gap', ('enum', it[1], start), ('tup', (S(f'idx:{node.lineno}', 'int'), it[2])), it[3]))
                        exact = False
                        idx = add(idx, T('gaplen', it[1]))
                    else:
                        res.append(('tup', (idx, it)))
                        idx = add(idx, C(1))
                out.append((('seq', tuple(res)), s))
            return out
        if name == 'zip':
            its = [self.seq_items(a, st) for a in args]
            if all(not any(is_gap(i) for i in x) for x in its):
                n = min(map(len, its)) if its else 0
                return [(('seq', tuple(('tup', tuple(x[i] for x in its)) for i in range(n))), st)]
            elem = ('tup', tuple(self._generic(x) for x in its))
            return [(('seq', (gap(('zip', node.lineno), elem),)), st)]
        if name == 'range':
            if all(is_c(a) for a in args):
                r = list(range(*[a[2] for a in args]))
                if len(r) <= 6:
                    return [(('seq', tuple(C(i) for i in r)), st)]
            return [(('seq', (gap(('range', node.lineno, tuple(args)), S(f'range:{node.lineno}', 'int')),)), st)]
        if name in ('str', 'repr'):
            if a0 is None:
                return [(C(''), st)]
            return self.to_str(a0, st, node)
        if name in ('int', 'float', 'bool', 'abs', 'round', 'ord', 'chr'):
            if name == 'bool':
                return [(B(t) if isinstance(t, bool) else t, s) for t, s in self.truth(a0, st)]
            if is_c(a0) and len(args) == 1:
                try:
                    return [(C({'int': int, 'float': float, 'abs': abs, 'round': round, 'ord': ord, 'chr': chr}[name](a0[2])), st)]
                except (ValueError, TypeError):
                    return [(self.exc('ValueError', node), st)]
            return [(T(name, *args), st)]
        if name in ('any', 'all'):
            out = []
            for items, s in self.iterate(a0, st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                cur = [s]
                want = name == 'any'
                for it in items:
                    nxt = []
                    for s2 in cur:
                        if is_gap(it):
                            # some unknown element decides, or none does
                            nxt.append(s2)
                            if it[2][0] != 'c' or bool(it[2][2]) == want:
                                out.append((B(want), s2.fork()))
                            continue
                        for t, s3 in self.truth(it, s2):
                            if t is want:
                                out.append((B(want), s3))
                            elif isinstance(t, bool):
                                nxt.append(s3)
                            else:
                                out.append((t, s3))
                    cur = nxt
                out.extend((B(not want), s2) for s2 in cur)
            return out
        if name == 'next':
            items = self.seq_items(a0, st)
            out = []
            default = args[1] if len(args) > 1 else None
            s = st
            for it in items:
                if is_gap(it):
                    out.append((it[2], s.fork()))
                    if it[3]:
                        return out
                else:
                    out.append((it, s))
                    return out
            out.append((default, s) if default is not None else (self.exc('StopIteration', node), s))
            return out
        if name in ('min', 'max', 'sum'):
            return [(T(name, *[self.snap(a, st) for a in args]), st)]
        if name in ('getattr', 'hasattr', 'setattr') and len(args) >= 2 and is_c(args[1]) and isinstance(args[1][2], str):
            if name == 'getattr':
                r = self.getattr(a0, args[1][2], st, node)
                if len(args) > 2:
                    r = [((args[2] if is_raise(v) else v), s) for v, s in r]
                return r
            if name == 'setattr':
                return [((NONE if fl is None else ('!raise',) + fl[1:]), s) for fl, s in self.setattr(a0, args[1][2], args[2], st, node)]
            return [(T('hasattr', a0, args[1]), st)]
        if name in ('setattr', 'delattr', 'exec', 'eval'):
            s = st.fork()
            self.escape(args, kwargs, s, name)
            return [(TOP, s)]
        if name in ('print', 'hash', 'id', 'callable', 'type', 'input', 'format', 'getattr', 'hasattr', 'divmod', 'pow'):
            if name == 'type' and a0 is not None and a0[0] == 'o' and st.heap[a0[1]].cls:
                return [(('cls', st.heap[a0[1]].cls), st)]
            if name == 'print':
                return [(NONE, st)]
            return [(T(name, *args), st)]
        if name in ('map', 'filter'):
            out = []
            for items, s in self.iterate(args[1], st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                out.append((('seq', tuple(gap((name, node.lineno, i), TOP) if not is_gap(x) else gap((name, x[1]), TOP) for i, x in enumerate(items))), s))
            return out
        if name == 'open':
            return [(S(f'file:{node.lineno}', 'obj'), st)]
        return [(T('bi_' + name, *args), st)]

    def dict_from_mapping(self, v, st, node):
        """dict(mapping): iterate keys, look each up."""
        out = []
        for items, s in self.iterate(v, st, node):
            if items and items[0] == '!raise':
                out.append((items, s))
                continue
            cur = [((), s)]
            for k in items:
                nxt = []
                for acc, s2 in cur:
                    if is_gap(k):
                        nxt.append((acc + (k,), s2))
                    else:
                        for r, s3 in self.getitem(v, k, s2, node):
                            if is_raise(r):
                                out.append((r, s3))
                            else:
                                nxt.append((acc + ((k, r),), s3))
                cur = nxt
            for acc, s2 in cur:
                s2 = s2.fork()
                out.append((s2.new(f'D{node.lineno}:{node.col_offset}', Obj('dict', items=acc, fresh=True)), s2))
        return out

    def sort_key_ok(self, keyv):
        """sorted(..., key=lambda n: n.ord / n._ord) is the natural order of nodes."""
        if keyv[0] == 'lam':
            b = keyv[1].node.body
            if isinstance(b, ast.Attribute) and b.attr in ('ord', '_ord'):
                return True
        return None

    def _generic(self, items):
        for i in items:
            if is_gap(i):
                return i[2]
        return items[0] if items else TOP

    def _frame_func(self, fr, st):
        f = fr
        while f is not None and st.heap[f].tag[2] is None:
            f = st.heap[f].tag[1]
        return st.heap[f].tag[2] if f else None

    def isinstance(self, v, t, st, node):
        if t[0] == 'tup':
            cur, out = [st], []
            for x in t[1]:
                nxt = []
                for s in cur:
                    for r, s2 in self.isinstance(v, x, s, node):
                        for b, s3 in self.truth(r, s2):
                            (out.append((TRUE, s3)) if b else nxt.append(s3))
                cur = nxt
            return out + [(FALSE, s) for s in cur]
        if v[0] == 'o':
            o = st.heap[v[1]]
            if t[0] == 'cls':
                if o.cls in self.p.classes:
                    return [(B(self.p.classes[t[1]] in self.p.classes[o.cls].mro()), st)]
                return [(FALSE, st)]
            if t[0] == 'bi':
                if o.kind in ('list', 'dict', 'set'):
                    return [(B(t[1] == o.kind or t[1] == 'object'), st)]
                if o.cls in self.p.classes:
                    return [(B(t[1] == 'object' or t[1] in [str(b) for b in self.p.classes[o.cls].external_bases()]), st)]
            if t[0] == 'ext':
                short = t[1].rsplit('.', 1)[-1]
                if o.kind == 'dict':
                    return [(B(short in ('Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Container')), st)]
                if o.kind == 'list':
                    return [(B(short in ('Sequence', 'MutableSequence', 'Iterable', 'Collection', 'Sized', 'Container')), st)]
                if o.cls in self.p.classes:
                    eb = [str(b) for b in self.p.classes[o.cls].external_bases()]
                    hit = any(b.endswith(short) or short == 'Mapping' and b.endswith('MutableMapping') for b in eb)
                    return [(B(hit), st)]
        if is_c(v) and t[0] == 'bi':
            ty = getattr(builtins, t[1], None)
            return [(B(isinstance(v[2], ty)) if isinstance(ty, type) else TOP, st)]
        if is_c(v) and t[0] in ('cls', 'ext'):
            short = t[1].rsplit('.', 1)[-1]
            if isinstance(v[2], str) and short in ('Iterable', 'Sequence', 'Sized', 'Container', 'Collection'):
                return [(TRUE, st)]
            return [(FALSE, st)]
        if (v[0] in ('cat', 'join') or v[0] == 's' and v[2] == 'str') and t[0] in ('bi', 'cls', 'ext'):
            short = t[1].rsplit('.', 1)[-1]
            return [(B(short in ('str', 'object', 'Iterable', 'Sequence')), st)]
        if (v[0] == 'lin' or v[0] == 's' and v[2] == 'int') and t[0] in ('bi', 'cls', 'ext'):
            return [(B(t[1] in ('int', 'object')), st)]
        if v[0] == 's' and v[2] == 'float' and t[0] in ('bi', 'cls', 'ext'):
            return [(B(t[1] in ('float', 'object')), st)]
        if v[0] == 't' and v[1] == 'round' and t[0] in ('bi', 'cls', 'ext'):
            if t[1] in ('int', 'float'):
                return [(T('isinstance', v, t), st)] if t[1] == 'int' else [(B(True), st)]
            return [(B(t[1] == 'object'), st)]
        if v[0] == 'tup':
            return [(B(t == ('bi', 'tuple')), st)]
        return [(T('isinstance', v, t), st)]

    def call_ext(self, name, args, kwargs, st, node):
        if name.startswith('logging.') or name.startswith('warnings.'):
            return [(NONE, st)]
        if name in ('copy.copy', 'copy.deepcopy') and args and args[0][0] == 'o':
            s = st.fork()
            if name == 'copy.copy':
                o = s.heap[args[0][1]].copy()
                o.fresh = True
                return [(s.new(f'CP{node.lineno}:{node.col_offset}', o), s)]
            return [(self.deepcopy(args[0], s, {}, node), s)]
        if name.startswith('functools.') or name.startswith('itertools.chain'):
            return [(TOP, st)]
        s = st.fork()
        if self.hook is not None and hasattr(self.hook, 'ext'):
            r = self.hook.ext(self, name, args, kwargs, s, node)
            if r is not None:
                return r
        if not name.startswith(('re.', 'os.', 'sys.', 'math.', 'json.', 'random.', 'regex.', 'collections.', 'io.',
                                'time.', 'gc.', 'contextlib.', 'inspect.', 'unicodedata.', 'html.')):
            self.escape(args, kwargs, s, 'call of ' + name)
        return [(T('ext', name, *[self.snap(a, s) for a in args]), s)]

    def deepcopy(self, v, s, memo, node):
        if v[0] != 'o':
            return v
        if v[1] in memo:
            return memo[v[1]]
        o = s.heap[v[1]].copy()
        o.fresh = True
        nv = s.new(f'CP{node.lineno}:{v[1]}', o)
        memo[v[1]] = nv
        o.attrs = {k: self.deepcopy(x, s, memo, node) for k, x in o.attrs.items()}
        if o.kind in ('list', 'set'):
            o.items = tuple(i if is_gap(i) else self.deepcopy(i, s, memo, node) for i in o.items)
        return nv

    # ------------------------------------------------------------ methods of builtin values
    def call_method(self, v, name, args, kwargs, st, node):
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind == 'list':
                return self.list_method(v, name, args, kwargs, st, node)
            if o.kind == 'set':
                return self.set_method(v, name, args, kwargs, st, node)
            if o.kind == 'dict':
                return self.dict_method(v, name, args, kwargs, st, node)
        if v[0] == 'bi' and v[1] in ('str', 'dict') and args:
            return self.call_method(args[0], name, args[1:], kwargs, st, node)
        if is_c(v) and isinstance(v[2], str) and all(is_c(a) for a in args) and not kwargs and \
                name in PURE_STR | {'split', 'join', 'partition', 'rpartition', 'rsplit'} and name not in ('encode', 'format'):
            try:
                r = getattr(v[2], name)(*[a[2] for a in args])
                if isinstance(r, list):
                    s = st.fork()
                    return [(s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=tuple(map(C, r)), fresh=True)), s)]
                if isinstance(r, tuple):
                    return [(('tup', tuple(map(C, r))), st)]
                return [(C(r), st)]
            except Exception as err:
                return [(self.exc(type(err).__name__, node), st)]
        if name == 'join' and args and is_c(v):
            out = []
            for items, s in self.iterate(args[0], st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                elif not items:
                    out.append((C(''), s))
                elif len(items) == 1 and not is_gap(items[0]):
                    out.append((('join', v, items), s))
                else:
                    out.append((('join', v, items), s))
            return out
        if name in ('split', 'partition', 'rsplit', 'rpartition') and args and is_c(args[0]):
            return self.str_split(v, name, args, kwargs, st, node)
        if name == 'replace' and v[0] == 'join':
            return [(T('strmeth', name, v, *args), st)]
        if name in PURE_STR or name in ('split', 'join', 'partition', 'rsplit', 'splitlines'):
            if name == 'startswith' and v[0] == 'cat' and is_c(v[1][0]) and is_c(args[0]) and isinstance(args[0][2], str) \
                    and len(v[1][0][2]) >= len(args[0][2]):
                return [(B(v[1][0][2].startswith(args[0][2])), st)]
            typ = 'strmeth' if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'format', 'title',
                                        'capitalize', 'join', 'zfill') else 'meth'
            return [(T(typ, name, self.snap(v, st), *args), st)]
        s = st.fork()
        if self.hook is not None and hasattr(self.hook, 'method'):
            r = self.hook.method(self, v, name, args, kwargs, s, node)
            if r is not None:
                return r
        self.escape(args, kwargs, s, f'unknown method {name}')
        return [(T('meth', name, self.snap(v, s), *args), s)]

    def atomic(self, v, sep):
        """Symbols known to be non-empty text without this separator."""
        return v[0] == 's' and (v[1].startswith('key:') or v[1].startswith('val:') and sep not in self.val_seps)

    def str_split(self, v, name, args, kwargs, st, node):
        sep = args[0][2]
        maxsplit = kwargs.get('maxsplit', args[1] if len(args) > 1 else C(-1))
        s = st.fork()

        def mk(items):
            return s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=tuple(items), fresh=True))
        if v[0] == 'join' and v[1][2] == sep and name == 'split' and maxsplit == C(-1):
            return [(mk(v[2]), s)]
        if is_c(v) and v[1] == 'str' and is_c(maxsplit) and (sep is None or isinstance(sep, str)) and sep != '':
            if name in ('partition', 'rpartition'):
                return [(('tup', tuple(C(x) for x in getattr(v[2], name)(sep))), s)]
            return [(mk([C(x) for x in getattr(v[2], name)(sep, maxsplit[2])]), s)]
        parts = None
        if v[0] == 'cat':
            parts = list(v[1])
        elif v[0] == 's' and self.atomic(v, sep):
            parts = [v]
        if parts is not None and is_c(maxsplit):
            limit = 1 if name == 'partition' else maxsplit[2]
            # split at constant separators; symbolic parts named key:* contain no separator
            pieces, cur, n, fuzzy = [], [], 0, False
            for p in parts:
                if is_c(p) and p[1] == 'str' and sep in p[2] and (limit < 0 or n < limit):
                    chunks = p[2].split(sep, -1 if limit < 0 else limit - n)
                    cur.append(C(chunks[0]))
                    for ch in chunks[1:]:
                        pieces.append(cat(cur) if cur else C(''))
                        cur = [C(ch)]
                        n += 1
                else:
                    if not is_c(p) and not self.atomic(p, sep) and (limit < 0 or n < limit):
                        fuzzy = True
                    cur.append(p)
            pieces.append(cat(cur) if cur else C(''))
            if name == 'partition':
                if len(pieces) == 2 and not fuzzy:
                    return [(('tup', (pieces[0], C(sep), pieces[1])), s)]
                if len(pieces) == 1 and not fuzzy:
                    return [(('tup', (pieces[0], C(''), C(''))), s)]
            elif name == 'split':
                out = [(mk(pieces), s)]
                if fuzzy:
                    s2 = s.fork()
                    more = pieces[:-1] + [T('piece', pieces[-1], C(0)), T('piece', pieces[-1], C(1))]
                    s3 = s2
                    out.append((s3.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=tuple(more), fresh=True)), s3))
                return out
        if name in ('partition', 'rpartition'):
            return [(('tup', tuple(T('part', name, v, C(sep), C(i)) for i in range(3))), s)]
        if name == 'split' and is_c(maxsplit) and maxsplit[2] == 1:
            # one or two pieces
            s2 = s.fork()
            one = s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=(v,), fresh=True))
            s.facts[T('in', C(sep), v)] = False
            two = s2.new(f'L{node.lineno}:{node.col_offset}', Obj('list', items=(T('strmeth', 'piece', v, C(sep), C(0)), T('strmeth', 'piece', v, C(sep), C(1))), fresh=True))
            s2.facts[T('in', C(sep), v)] = True
            f = st.facts.get(T('in', C(sep), v))
            return [x for x, ok in (((one, s), f is not True), ((two, s2), f is not False)) if ok]
        return [(mk((gap(('split', v, C(sep)), T('strmeth', 'piece', v, C(sep)), True),)), s)]

    def mutate(self, v, op, args, st, node):
        if self.hook is not None and hasattr(self.hook, 'mutate'):
            self.hook.mutate(self, v, op, args, st, node)
        st.ev('mutate', v[1], op, tuple(args), getattr(node, 'lineno', 0))

    def list_method(self, v, name, args, kwargs, st, node):
        oid = v[1]
        o = st.heap[oid]
        s = st.fork()
        if name in ('append', 'insert'):
            x = args[-1]
            self.mutate(v, name, args, s, node)
            if o.weak:
                return [(NONE, s)]
            if name == 'append' and o.sorted:
                term = self.order_term(o, x, s)
                if term is not None:
                    out = []
                    for t, s2 in self.atom(term, s):
                        w = s2.w(oid)
                        w.items = norm_items(o.items + (self.as_item(x, s2),))
                        w.sorted = None if t else True
                        out.append((NONE, s2))
                    return out
            w = s.w(oid)
            item = self.as_item(x, s)
            if name == 'append':
                srt = o.sorted and self.append_sorted(o, x, s)
                w.items = norm_items(o.items + (item,))
                w.sorted = True if srt else None
            else:
                if args[0] == C(0):
                    w.items = norm_items((item,) + o.items)
                elif is_c(args[0]) and isinstance(args[0][2], int) and not any(map(is_gap, o.items)):
                    items = list(o.items)
                    items.insert(args[0][2], item)
                    w.items = norm_items(tuple(items))
                else:
                    w.items = norm_items(o.items + (item,))
                w.sorted = None
            return [(NONE, s)]
        if name == 'extend':
            self.mutate(v, name, args, s, node)
            out = []
            for items, s2 in self.iterate(args[0], s, node):
                if items and items[0] == '!raise':
                    out.append((items, s2))
                    continue
                s2 = s2.fork()
                if not o.weak:
                    w = s2.w(oid)
                    was_empty = not o.items
                    w.items = norm_items(o.items + tuple(items))
                    if items:
                        w.sorted = s2.heap[args[0][1]].sorted if was_empty and args[0][0] == 'o' else None
                out.append((NONE, s2))
            return out
        if name == 'sort':
            self.mutate(v, name, args, s, node)
            if not o.weak:
                w = s.w(oid)
                w.sorted = True if not kwargs.get('reverse') else None
                if 'key' in kwargs:
                    w.sorted = self.sort_key_ok(kwargs['key'])
                w.items = order_gaps(o.items)
            return [(NONE, s)]
        if name == 'reverse':
            self.mutate(v, name, args, s, node)
            w = s.w(oid)
            w.items, w.sorted = o.items[::-1], None
            return [(NONE, s)]
        if name == 'clear':
            self.mutate(v, name, args, s, node)
            if not o.weak:
                w = s.w(oid)
                w.items, w.sorted = (), True
            return [(NONE, s)]
        if name == 'copy':
            return [(s.new(f'L{node.lineno}:{node.col_offset}', Obj('list', cls=None, items=o.items, fresh=True, sorted=o.sorted)), s)]
        if name == 'remove':
            x = args[0]
            out = []
            for r, s2 in self.contains(v, x, s, node):
                if is_raise(r):
                    out.append((r, s2))
                    continue
                for t, s3 in self.truth(r, s2):
                    if t:
                        s3 = s3.fork()
                        self.mutate(v, name, args, s3, node)
                        if not s3.heap[oid].weak:
                            w = s3.w(oid)
                            w.items = remove_first(w.items, x)
                        out.append((NONE, s3))
                    else:
                        out.append((self.exc('ValueError', node, 'list.remove'), s3))
            return out
        if name == 'pop':
            self.mutate(v, name, args, s, node)
            return self.list_pop(v, args, s, node)
        if name in ('index', 'count'):
            if name == 'index':
                out = []
                for r, s2 in self.contains(v, args[0], s, node):
                    for t, s3 in self.truth(r, s2):
                        out.append((T('index', self.snap(v, s3), args[0]), s3) if t else (self.exc('ValueError', node), s3))
                return out
            return [(T('count', self.snap(v, s), args[0]), s)]
        return [(TOP, s)]

    def order_term(self, o, x, st):
        """The comparison that decides whether appending x keeps the list sorted (None: already known, or never)."""
        hook = getattr(self.hook, 'order_term', None)
        if hook is None or not o.items:
            return None
        last = o.items[-1]
        return hook(self, x, last[2] if is_gap(last) else last, st)

    def append_sorted(self, o, x, st):
        if not o.items:
            return True
        hook = getattr(self.hook, 'is_last', None)
        last = o.items[-1]
        lastv = last[2] if is_gap(last) else last
        if hook is not None:
            return hook(self, o, x, lastv, st)
        return False

    def list_pop(self, v, args, st, node):
        oid = v[1]
        o = st.heap[oid]
        idx = args[0][2] if args and is_c(args[0]) else (-1 if not args else None)
        if idx not in (0, -1) or not o.items and idx is not None:
            if not o.items:
                return [(self.exc('IndexError', node), st)]
            return [(T('item', ('snap', o.items), args[0]), st)]
        items = o.items if idx == 0 else o.items[::-1]
        out = []
        head = items[0]

        def put(s, rest):
            if not s.heap[oid].weak:
                s.w(oid).items = tuple(rest if idx == 0 else rest[::-1])
        if is_gap(head):
            s1 = st.fork()
            put(s1, (head[:3] + (False,),) + items[1:])
            out.append((head[2], s1))
            if not head[3]:
                s2 = st.fork()
                put(s2, items[1:])
                out.extend(self.list_pop(v, args, s2, node))
        else:
            s1 = st.fork()
            put(s1, items[1:])
            out.append((head, s1))
        return out

    def set_method(self, v, name, args, kwargs, st, node):
        oid = v[1]
        o = st.heap[oid]
        s = st.fork()
        if name in ('add', 'update', 'discard', 'remove', 'clear', 'pop'):
            self.mutate(v, name, args, s, node)
            w = s.w(oid)
            if name == 'add':
                w.items = norm_items(o.items + (self.as_item(args[0], s),), True)
            elif name == 'update':
                for a in args:
                    w.items = norm_items(w.items + self.seq_items(a, s), True)
            elif name in ('discard', 'remove'):
                w.items = tuple(i for i in o.items if i != args[0])
            elif name == 'clear':
                w.items = ()
            return [(NONE if name != 'pop' else TOP, s)]
        return [(T('meth', name, self.snap(v, s), *[self.snap(a, s) for a in args]), s)]

    def dict_method(self, v, name, args, kwargs, st, node):
        oid = v[1]
        o = st.heap[oid]
        if name == 'get':
            return self.dict_get(oid, args[0], st, node, default=args[1] if len(args) > 1 else NONE)
        if name in ('__contains__',):
            return self.contains(v, args[0], st, node)
        if name in ('__iter__', 'keys'):
            return [(('seq', tuple(i if is_gap(i) else i[0] for i in o.items)), st)]
        if name == 'values':
            return [(('seq', tuple(gap(('val', i[1]), S('dictval', '?'), i[3]) if is_gap(i) else i[1] for i in o.items)), st)]
        if name == 'items':
            return [(('seq', tuple(gap(('items', i[1]), ('tup', (i[2], S('dictval', '?'))), i[3]) if is_gap(i) else ('tup', (i[0], i[1])) for i in o.items)), st)]
        if name == '__len__':
            return self.call_builtin('len', [v], {}, st, node, None)
        if name == 'clear':
            s = st.fork()
            self.mutate(v, name, args, s, node)
            s.w(oid).items = ()
            return [(NONE, s)]
        if name in ('pop', '__delitem__', '__setitem__', '__getitem__'):
            if name == '__getitem__':
                return self.dict_get(oid, args[0], st, node, missing='KeyError')
            if name == '__setitem__':
                return [((NONE if f is None else ('!raise',) + f[1:]), s) for f, s in self.setitem(v, args[0], args[1], st, node)]
            out = []
            for r, s in self.dict_get(oid, args[0], st, node, missing='KeyError'):
                if is_raise(r):
                    if name == 'pop' and len(args) > 1:
                        out.append((args[1], s))
                    else:
                        out.append((r, s))
                else:
                    s = s.fork()
                    self.mutate(v, name, args, s, node)
                    w = s.w(oid)
                    w.items = tuple(i for i in w.items if is_gap(i) or i[0] != args[0])
                    out.append((r if name == 'pop' else NONE, s))
            return out
        if name == 'setdefault':
            out = []
            for r, s in self.dict_get(oid, args[0], st, node, missing='KeyError'):
                if is_raise(r):
                    d = args[1] if len(args) > 1 else NONE
                    for f, s2 in self.setitem(v, args[0], d, s, node):
                        out.append((d, s2))
                else:
                    out.append((r, s))
            return out
        if name == 'update' and len(args) == 1 and not kwargs and \
                not (args[0][0] == 'o' and st.heap[args[0][1]].kind == 'dict') and \
                not (args[0][0] == 'o' and st.heap[args[0][1]].kind == 'inst'):
            out = []
            for items, s in self.iterate(args[0], st, node):
                if items and items[0] == '!raise':
                    out.append((items, s))
                    continue
                s = s.fork()
                self.mutate(v, name, args, s, node)
                w = s.w(oid)
                for it in items:
                    if is_gap(it):
                        k = it[2][1][0] if it[2][0] == 'tup' and len(it[2][1]) == 2 else it[2]
                        w.items = w.items + (('gap', ('keys', it[1]), k, it[3]),)
                    elif it[0] == 'tup' and len(it[1]) == 2:
                        w.items = tuple(i for i in w.items if is_gap(i) or i[0] != it[1][0]) + (it[1],)
                    else:
                        w.items = w.items + (gap(('upd', repr(it)[:40]), S('?upd', '?')),)
                out.append((NONE, s))
            return out
        if name == 'update' and args and args[0][0] == 'o' and st.heap[args[0][1]].kind == 'inst':
            out = []
            for d, s in self.dict_from_mapping(args[0], st, node):
                out.extend([(d, s)] if is_raise(d) else self.dict_method(v, 'update', [d] + args[1:], kwargs, s, node))
            return out
        if name == 'update':
            s = st.fork()
            self.mutate(v, name, args, s, node)
            w = s.w(oid)
            for a in args:
                if a[0] == 'o' and s.heap[a[1]].kind == 'dict':
                    for ent in s.heap[a[1]].items:
                        if is_gap(ent):
                            if ent not in w.items:
                                w.items = w.items + (ent,)
                        else:
                            w.items = tuple(i for i in w.items if is_gap(i) or i[0] != ent[0]) + (ent,)
                else:
                    w.items = w.items + (gap(('upd', repr(a)[:40]), S('?upd', '?')),)
            for k, x in kwargs.items():
                w.items = tuple(i for i in w.items if is_gap(i) or i[0] != C(k)) + ((C(k), x),)
            return [(NONE, s)]
        if name == 'copy':
            s = st.fork()
            return [(s.new(f'D{node.lineno}:{node.col_offset}', Obj('dict', items=o.items, fresh=True)), s)]
        return [(TOP, st)]

    def setitem(self, v, k, val, st, node):
        """list of (flow, st)"""
        if v[0] == 'o':
            o = st.heap[v[1]]
            if o.kind == 'inst' and o.cls in self.p.classes:
                m = self.p.classes[o.cls].find_method('__setitem__')
                if m is not None:
                    return [((None if not is_raise(r) else ('raise',) + r[1:]), s)
                            for r, s in self.call_func(m, [v, k, val], {}, st, node)]
            s = st.fork()
            self.mutate(v, '__setitem__', [k, val], s, node)
            if o.kind == 'dict' and not o.weak:
                w = s.w(v[1])
                if any(not is_gap(i) and i[0] == k for i in o.items):
                    w.items = tuple((k, val) if not is_gap(i) and i[0] == k else i for i in o.items)
                elif k[0] == 'c' or self.tracked_key(k, ()) or k[0] == 'o' and not s.heap[k[1]].weak:
                    w.items = o.items + ((k, val),)
                else:
                    tag = ('keys',) + tuple(sorted(roots_of(k)))
                    if not any(is_gap(i) and i[1] == tag for i in o.items):
                        w.items = o.items + (gap(tag, k, True),)
                return [(None, s)]
            if o.kind == 'list' and not o.weak:
                w = s.w(v[1])
                if not any(is_gap(i) for i in o.items) and is_c(k) and isinstance(k[2], int) and -len(o.items) <= k[2] < len(o.items):
                    items = list(o.items)
                    items[k[2]] = val
                    w.items = tuple(items)
                else:
                    s.taint('indexed store into a partially known list')
                w.sorted = None
                return [(None, s)]
            return [(None, s)]
        s = st.fork()
        s.ev('setitem?', v, k, val, node.lineno)
        return [(None, s)]

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr, st):
        cur = [(None, st)]
        for x in stmts:
            nxt = []
            for flow, s in cur:
                if flow is not None:
                    nxt.append((flow, s))
                else:
                    nxt.extend(self.stmt(x, fr, s))
            if len(nxt) > 3:
                nxt = dedupe(nxt)
            if len(nxt) > self.MAX_STATES:
                raise Undetermined('too many states')
            cur = nxt
        return cur

    def stmt(self, x, fr, st):
        self.tick()
        m = getattr(self, 'st_' + type(x).__name__, None)
        if m is None:
            return [(None, st)]
        return m(x, fr, st)

    def flow_of(self, res):
        return [((None if not is_raise(v) else ('raise',) + v[1:]), s) for v, s in res]

    def st_Expr(self, x, fr, st):
        if isinstance(x.value, ast.Constant):
            return [(None, st)]
        return self.flow_of(self.ev(x.value, fr, st))

    def st_Pass(self, x, fr, st):
        return [(None, st)]

    def st_Import(self, x, fr, st):
        s = st.fork()
        table = {}
        self.p._bind_import(st.heap[fr].tag[0], x, table)
        for n, b in table.items():
            if n != '*':
                r = self.p.resolve_dotted(b[1])
                s.w(fr).attrs[n] = self.wrap(r) if r is not None else TOP
        return [(None, s)]

    st_ImportFrom = st_Import

    def st_Global(self, x, fr, st):
        return [(None, st)]

    st_Nonlocal = st_Global

    def st_FunctionDef(self, x, fr, st):
        s = st.fork()
        f = self.p.func_of_node.get(x)
        s.w(fr).attrs[x.name] = ('fn', f.key, None, fr) if f is not None else TOP
        return [(None, s)]

    def st_ClassDef(self, x, fr, st):
        s = st.fork()
        s.w(fr).attrs[x.name] = TOP
        return [(None, s)]

    def st_Return(self, x, fr, st):
        if x.value is None:
            return [(('ret', NONE), st)]
        out = []
        for v, s in self.ev(x.value, fr, st):
            out.append(((('raise',) + v[1:]) if is_raise(v) else ('ret', v), s))
        return out

    def st_Raise(self, x, fr, st):
        if x.exc is None:
            cur = st.heap[fr].attrs.get('@exc')
            return [(('raise', cur or ('exc', 'Exception', None), x.lineno), st)]
        out = []
        for v, s in self.ev(x.exc, fr, st):
            if is_raise(v):
                out.append((('raise',) + v[1:], s))
            elif v[0] == 'exc':
                out.append((('raise', v, x.lineno), s))
            elif v[0] == 'exccls':
                out.append((('raise', ('exc', v[1], None), x.lineno), s))
            elif v[0] == 'cls':
                out.append((('raise', ('exc', v[1], None), x.lineno), s))
            else:
                out.append((('raise', ('exc', 'Exception', None), x.lineno), s))
        return out

    def st_Assert(self, x, fr, st):
        out = []
        for v, s in self.ev(x.test, fr, st):
            if is_raise(v):
                out.append((('raise',) + v[1:], s))
                continue
            for t, s2 in self.truth(v, s, x):
                out.append((None if t else ('raise', ('exc', 'AssertionError', None), x.lineno), s2))
        return out

    def st_Delete(self, x, fr, st):
        cur = [(None, st)]
        for t in x.targets:
            nxt = []
            for fl, s in cur:
                if fl is not None:
                    nxt.append((fl, s))
                    continue
                if isinstance(t, ast.Name):
                    s = s.fork()
                    s.w(fr).attrs.pop(t.id, None)
                    nxt.append((None, s))
                elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    for vals, s2 in self.many([t.value, t.slice], fr, s):
                        if isinstance(vals, tuple):
                            nxt.append((('raise',) + vals[1:], s2))
                            continue
                        v, k = vals
                        if v[0] == 'o' and s2.heap[v[1]].kind == 'inst' and s2.heap[v[1]].cls in self.p.classes:
                            m = self.p.classes[s2.heap[v[1]].cls].find_method('__delitem__')
                            if m is not None:
                                nxt.extend(self.flow_of(self.call_func(m, [v, k], {}, s2, x)))
                                continue
                        if v[0] == 'o' and s2.heap[v[1]].kind == 'dict':
                            nxt.extend(self.flow_of(self.dict_method(v, '__delitem__', [k], {}, s2, x)))
                        elif v[0] == 'o' and s2.heap[v[1]].kind == 'list':
                            nxt.extend(self.flow_of(self.list_method(v, 'pop', [k], {}, s2, x)))
                        else:
                            nxt.append((None, s2))
                elif isinstance(t, ast.Subscript):
                    for v, s2 in self.ev(t.value, fr, s):
                        if v[0] == 'o' and s2.heap[v[1]].kind == 'list' and t.slice.lower is None and t.slice.upper is None:
                            nxt.extend(self.flow_of(self.list_method(v, 'clear', [], {}, s2, x)))
                        else:
                            s2 = s2.fork()
                            s2.taint('del slice')
                            nxt.append((None, s2))
                else:
                    nxt.append((None, s))
            cur = nxt
        return cur

    def st_Assign(self, x, fr, st):
        out = []
        for v, s in self.ev(x.value, fr, st):
            if is_raise(v):
                out.append((('raise',) + v[1:], s))
                continue
            cur = [(None, s)]
            for t in x.targets:
                nxt = []
                for fl, s2 in cur:
                    if fl is not None:
                        nxt.append((fl, s2))
                    else:
                        nxt.extend(self.assign(t, v, fr, s2))
                cur = nxt
            out.extend(cur)
        return out

    def st_AnnAssign(self, x, fr, st):
        if x.value is None:
            return [(None, st)]
        out = []
        for v, s in self.ev(x.value, fr, st):
            if is_raise(v):
                out.append((('raise',) + v[1:], s))
            else:
                out.extend(self.assign(x.target, v, fr, s))
        return out

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            s = st.fork()
            f = fr
            # nonlocal / global are rare: assign to the frame that declares them
            s.w(f).attrs[t.id] = v
            return [(None, s)]
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.ev(t.value, fr, st):
                if is_raise(o):
                    out.append((('raise',) + o[1:], s))
                else:
                    out.extend(self.setattr(o, t.attr, v, s, t, fr))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for o, s in self.ev(t.value, fr, st):
                    if is_raise(o):
                        out.append((('raise',) + o[1:], s))
                        continue
                    s = s.fork()
                    if o[0] == 'o' and s.heap[o[1]].kind == 'list':
                        self.mutate(o, '__setslice__', [v], s, t)
                        if t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                            srt = s.heap[v[1]].sorted if v[0] == 'o' else None
                            w = s.w(o[1])
                            w.items, w.sorted = self.seq_items(v, s), srt
                        else:
                            s.taint('slice store')
                    out.append((None, s))
                return out
            for vals, s in self.many([t.value, t.slice], fr, st):
                if isinstance(vals, tuple):
                    out.append((('raise',) + vals[1:], s))
                else:
                    out.extend(self.setitem(vals[0], vals[1], v, s, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, fr, st)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fr, st)
        return [(None, st)]

    def unpack(self, t, v, fr, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = None
        if v[0] == 'tup':
            items = v[1]
        elif v[0] == 'seq' and not any(is_gap(i) for i in v[1]):
            items = v[1]
        elif v[0] == 'o' and st.heap[v[1]].kind == 'list' and not any(is_gap(i) for i in st.heap[v[1]].items):
            items = st.heap[v[1]].items
        elif v[0] == 'o' and st.heap[v[1]].kind == 'dict' and not any(is_gap(i) for i in st.heap[v[1]].items):
            items = tuple(i[0] for i in st.heap[v[1]].items)
        if items is not None and not star:
            if len(items) != n:
                return [(('raise', ('exc', 'ValueError', 'unpack'), t.lineno), st)]
        elif star or items is None:
            base = self.snap(v, st)
            items = [T('item', base, C(i)) for i in range(n)]
        cur = [(None, st)]
        for e, x in zip(t.elts, items):
            nxt = []
            for fl, s in cur:
                if fl is not None:
                    nxt.append((fl, s))
                else:
                    nxt.extend(self.assign(e, x, fr, s))
            cur = nxt
        return cur

    def st_AugAssign(self, x, fr, st):
        t = x.target
        load = ast.copy_location(_as_load(t), t)
        out = []
        for vals, s in self.many([load, x.value], fr, st):
            if isinstance(vals, tuple):
                out.append((('raise',) + vals[1:], s))
                continue
            a, b = vals
            if isinstance(x.op, ast.Add) and a[0] == 'o' and s.heap[a[1]].kind == 'list':
                # in-place extend
                for r, s2 in self.list_method(a, 'extend', [b], {}, s, x):
                    if is_raise(r):
                        out.append((('raise',) + r[1:], s2))
                    else:
                        out.extend(self.assign(t, a, fr, s2))
                continue
            if isinstance(x.op, (ast.BitOr, ast.Sub)) and a[0] == 'o' and s.heap[a[1]].kind == 'set':
                name = 'update' if isinstance(x.op, ast.BitOr) else 'difference_update'
                for r, s2 in self.set_method(a, name, [b], {}, s, x):
                    out.append((None, s2))
                continue
            for r, s2 in self.binop(x.op, a, b, s, x, fr):
                if is_raise(r):
                    out.append((('raise',) + r[1:], s2))
                else:
                    out.extend(self.assign(t, r, fr, s2))
        return out

    def st_If(self, x, fr, st):
        out = []
        for v, s in self.ev(x.test, fr, st):
            if is_raise(v):
                out.append((('raise',) + v[1:], s))
                continue
            for t, s2 in self.truth(v, s, x):
                if not isinstance(t, bool):
                    out.append((('raise',) + t[1:], s2))
                else:
                    out.extend(self.block(x.body if t else x.orelse, fr, s2))
        return out

    def st_With(self, x, fr, st):
        cur = [(None, st)]
        for item in x.items:
            nxt = []
            for fl, s in cur:
                if fl is not None:
                    nxt.append((fl, s))
                    continue
                for v, s2 in self.ev(item.context_expr, fr, s):
                    if is_raise(v):
                        nxt.append((('raise',) + v[1:], s2))
                    elif item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, v, fr, s2))
                    else:
                        nxt.append((None, s2))
            cur = nxt
        out = []
        for fl, s in cur:
            out.extend(self.block(x.body, fr, s) if fl is None else [(fl, s)])
        return out

    def st_Try(self, x, fr, st):
        res = self.block(x.body, fr, st)
        out = []
        for fl, s in res:
            if fl is not None and fl[0] == 'raise':
                handled = False
                for h in x.handlers:
                    m = self.exc_match(fl[1], h.type, fr, s)
                    if m is False:
                        continue
                    s2 = s.fork()
                    o = s2.w(fr)
                    if h.name:
                        o.attrs[h.name] = fl[1] if fl[1][0] == 'exc' else TOP
                    o.attrs['@exc'] = fl[1]
                    out.extend(self.block(h.body, fr, s2))
                    if m is True:
                        handled = True
                        break
                if not handled:
                    out.append((fl, s))
            elif fl is None and x.orelse:
                out.extend(self.block(x.orelse, fr, s))
            else:
                out.append((fl, s))
        if x.finalbody:
            fin = []
            for fl, s in out:
                for fl2, s2 in self.block(x.finalbody, fr, s):
                    fin.append((fl if fl2 is None else fl2, s2))
            out = fin
        return out

    def exc_match(self, exc, typ, fr, st):
        """True / False / None (maybe)."""
        if typ is None:
            return True
        name = exc[1]
        types = typ.elts if isinstance(typ, ast.Tuple) else [typ]
        res = False
        for t in types:
            r = self.ev(t, fr, st)[0][0]
            if r[0] == 'exccls':
                want = BUILTIN_EXC[r[1]]
                have = BUILTIN_EXC.get(name)
                if have is None and name in self.p.classes:
                    for b in self.p.classes[name].external_bases():
                        if str(b) in BUILTIN_EXC:
                            have = BUILTIN_EXC[str(b)]
                if have is None:
                    res = None
                elif issubclass(have, want):
                    return True
            elif r[0] == 'cls':
                if name == r[1] or name in self.p.classes and self.p.classes[r[1]] in self.p.classes[name].mro():
                    return True
            else:
                res = None if res is False else res
        return res

    def st_Break(self, x, fr, st):
        return [(('brk',), st)]

    def st_Continue(self, x, fr, st):
        return [(('cont',), st)]

    # loops -------------------------------------------------------------
    def st_For(self, x, fr, st):
        out = []
        for it, s in self.ev(x.iter, fr, st):
            if is_raise(it):
                out.append((('raise',) + it[1:], s))
                continue
            for items, s2 in self.iterate(it, s, x):
                if items and items[0] == '!raise':
                    out.append((('raise',) + items[1:], s2))
                    continue
                s2 = s2.fork()
                s2.ev('loop', it, x.lineno)
                out.extend(self.for_items(x, items, fr, s2))
        return dedupe(out) if len(out) > 1 else out

    def for_items(self, x, items, fr, st):
        live, done = [st], []
        for item in items:
            nxt = []
            if not is_gap(item):
                for s in live:
                    for fl, s2 in self.assign(x.target, item, fr, s):
                        if fl is not None:
                            done.append((fl, s2))
                            continue
                        for fl2, s3 in self.block(x.body, fr, s2):
                            if fl2 is None or fl2[0] == 'cont':
                                nxt.append(s3)
                            else:
                                done.append((fl2, s3))
            else:
                # any number of unknown elements: fixpoint
                seen = set()
                todo = list(live)
                if not item[3]:
                    nxt.extend(live)
                rounds = 0
                base_heap = set().union(*(set(s.heap) for s in live)) if live else set()
                base = dict(live[0].heap[fr].attrs) if live else {}
                while todo:
                    rounds += 1
                    if rounds > 12:
                        raise Undetermined(f'loop at line {x.lineno} does not stabilise')
                    new = []
                    for s in todo:
                        for fl, s2 in self.assign(x.target, item[2], fr, s):
                            if fl is not None:
                                done.append((fl, s2))
                                continue
                            for fl2, s3 in self.block(x.body, fr, s2):
                                s3 = self.forget_generic(s3, item)
                                s3 = self.collect(s3, base_heap, fl2)
                                if fl2 is None or fl2[0] == 'cont':
                                    if rounds >= 2:
                                        s3 = self.widen(s3, fr, base, x, rounds >= 4)
                                    k = s3.key()
                                    if k not in seen:
                                        seen.add(k)
                                        new.append(s3)
                                        nxt.append(s3)
                                else:
                                    done.append((fl2, s3))
                    todo = new
                    if len(seen) > 600:
                        raise Undetermined(f'loop at line {x.lineno}: too many states')
            live = [s for _, s in dedupe([(None, s) for s in nxt])]
        for s in live:
            if x.orelse:
                done.extend(self.block(x.orelse, fr, s))
            else:
                done.append((None, s))
        out = []
        for fl, s in done:
            out.append((None, s) if fl is not None and fl[0] == 'brk' else (fl, s))
        return out

    def forget_generic(self, st, item):
        """Drop the facts that speak about the generic element of the iteration that just ended."""
        names = set()

        def coll(v):
            if v[0] == 'o':
                names.add(('o', v[1]))
                names.add(('s', v[1]))
            elif v[0] == 's':
                names.add(('s', v[1]))
            elif v[0] in ('tup', 't', 'seq', 'cat', 'lin'):
                for y in v[1:]:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], tuple):
                            for z in y:
                                coll(z)
                        elif y:
                            coll(y)
        coll(item[2])

        def pred(v):
            if v and v[0] == 'o':
                return ('o', v[1]) in names
            if v and v[0] == 's' and len(v) == 3:
                return ('s', v[1]) in names or ('s', v[1].split('.')[0]) in names
            return False
        bad = [f for f in st.facts if mentions(f, pred)]
        if bad:
            st = st.fork()
            for f in bad:
                del st.facts[f]
        return st

    def widen(self, st, fr, base, x, late=False):
        changed = None
        o = st.heap[fr]
        for n, v in o.attrs.items():
            b = base.get(n)
            if b is None or b == v:
                continue
            if v[0] in ('lin',) or is_c(v) and v[1] in ('int', 'float') or \
                    v[0] == 't' and v[1] in ('opMult', 'opFloorDiv', 'opMod'):
                if changed is None:
                    changed = {}
                changed[n] = S(f'widen:{x.lineno}:{n}', 'int')
            elif late and v[0] == 't' and v[1] not in ('eq', 'lt', 'is', 'in', 'not', 'isinstance'):
                if changed is None:
                    changed = {}
                changed[n] = S(f'widen:{x.lineno}:{n}', '?')
            elif v[0] == 'cat' or is_c(v) and v[1] == 'str' and self.is_str(b):
                if changed is None:
                    changed = {}
                changed[n] = S(f'widen:{x.lineno}:{n}', 'str')
        if changed:
            st = st.fork()
            w = st.w(fr)
            w.attrs.update(changed)
            syms = set(changed.values())
            for f in [f for f in st.facts if mentions(f, lambda v: v in syms)]:
                del st.facts[f]
        return st

    def st_While(self, x, fr, st):
        done, seen = [], set()
        todo = [st]
        rounds = 0
        base = dict(st.heap[fr].attrs)
        base_heap = set(st.heap)
        after = []
        while todo:
            rounds += 1
            if rounds > 14 + self.unroll:
                raise Undetermined(f'while loop at line {x.lineno} does not stabilise')
            new = []
            for s in todo:
                for v, s2 in self.ev(x.test, fr, s):
                    if is_raise(v):
                        done.append((('raise',) + v[1:], s2))
                        continue
                    for t, s3 in self.truth(v, s2, x):
                        if not isinstance(t, bool):
                            done.append((('raise',) + t[1:], s3))
                        elif not t:
                            after.append(s3)
                        else:
                            for fl, s4 in self.block(x.body, fr, s3):
                                s4 = self.collect(s4, base_heap, fl)
                                if fl is None or fl[0] == 'cont':
                                    if rounds >= 2 + self.unroll:
                                        s4 = self.widen(s4, fr, base, x, rounds >= 4 + self.unroll)
                                    k = s4.key()
                                    if k not in seen:
                                        seen.add(k)
                                        new.append(s4)
                                elif fl[0] == 'brk':
                                    done.append((None, s4))
                                else:
                                    done.append((fl, s4))
            todo = new
            if len(seen) > 600:
                raise Undetermined(f'while loop at line {x.lineno}: too many states')
        for s in after:
            if x.orelse:
                done.extend(self.block(x.orelse, fr, s))
            else:
                done.append((None, s))
        return dedupe(done)


class LamRef:
    """Hashable reference to a lambda node."""
    def __init__(self, node):
        self.node = node

    def __eq__(self, other):
        return isinstance(other, LamRef) and self.node is other.node

    def __hash__(self):
        return hash((self.node.lineno, self.node.col_offset))

    def __repr__(self):
        return f'lambda@{self.node.lineno}:{self.node.col_offset}'


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)


def norm_items(items, as_set=False):
    """Merge adjacent equal gaps (in sets: any equal entries)."""
    out = []
    for i in items:
        if as_set and i in out:
            continue
        if is_gap(i):
            if as_set:
                hit = [j for j, o in enumerate(out) if is_gap(o) and o[1] == i[1]]
                if hit:
                    out[hit[0]] = out[hit[0]][:3] + (out[hit[0]][3] or i[3],)
                    continue
            else:
                j = len(out) - 1
                while j >= 0 and is_gap(out[j]) and out[j][1] != i[1]:
                    j -= 1
                if j >= 0 and is_gap(out[j]):
                    out[j] = out[j][:3] + (out[j][3] or i[3],)
                    continue
        out.append(i)
    if len(out) > 14 and not as_set:
        # too long: forget the middle gaps' multiplicity
        ded, seen = [], set()
        for i in out:
            if is_gap(i) and i[1] in seen:
                continue
            if is_gap(i):
                seen.add(i[1])
            ded.append(i)
        out = ded
    if len(out) > ITEM_LIMIT[0]:
        raise Undetermined('collection grows without bound')
    return tuple(out)


def order_gaps(items):
    return items


def remove_first(items, x):
    out, done = [], False
    for i in items:
        if not done and i == x:
            done = True
            continue
        out.append(i)
    return tuple(out)
