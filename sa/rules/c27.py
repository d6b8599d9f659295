"""C27: numbers in the input that refer to words are resolved exactly or rejected."""
import ast

from ..flow import Flow
from ..project import own_nodes
from ..types import Types

EXPLANATION = ('Taint analysis of numbers converted from text: through variables, lists, tuples, parameters and return values '
               'to every place where they select words of a list (an index or a slice). On every path to such a place a '
               'comparison must have excluded numbers that Python would count from the end of the list, and, for slices, '
               'numbers beyond its end.')
TECHNIQUE = 'interprocedural taint analysis with path-sensitive range checks'

NODES = ('udapi.core.node.Node', 'udapi.core.node.EmptyNode', 'udapi.core.root.Root')
CLEAN, NONNEG, ANY = 0, 1, 2
NUMERIC_CALLS = ('len', 'round', 'sum', 'abs', 'float', 'ord', 'min', 'max')


def text(e):
    return ast.unparse(e)


def split_offset(e):
    """e as (base expression, constant offset)."""
    off = 0
    while isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        k = 1 if isinstance(e.op, ast.Add) else -1
        if isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
            off += k * e.right.value
            e = e.left
        elif k == 1 and isinstance(e.left, ast.Constant) and isinstance(e.left.value, int):
            off += e.left.value
            e = e.right
        else:
            break
    return e, off


def number(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and \
            isinstance(e.operand.value, (int, float)):
        return -e.operand.value
    return None


class Bounds(Flow):
    """State: frozenset of ('lo', expression, bound) and ('hi', expression) facts that hold; records them at nodes of interest."""

    def __init__(self, nonneg):
        self.at = {}
        self.nonneg = nonneg        # names that cannot be negative

    def may_raise(self, node):
        return isinstance(node, (ast.Call, ast.Subscript, ast.Raise))

    def event(self, n, s):
        if isinstance(n, (ast.Subscript, ast.Call, ast.Return)):
            self.at[n] = s if n not in self.at else self.at[n] & s
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return frozenset(x for x in s if n.id not in x[-1])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                'append', 'pop', 'remove', 'insert', 'clear', 'extend', 'sort', 'reverse'):
            base = text(n.func.value)
            return frozenset(x for x in s if not x[1].startswith(base + '['))
        return s

    def fact(self, kind, e, bound=0):
        names = frozenset(n.id for n in ast.walk(e) if isinstance(n, ast.Name))
        return (kind, text(e), bound, names)

    def lower(self, e, s):
        k = number(e)
        if k is not None:
            return k
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len':
            return 0
        b, off = split_offset(e)
        if off:
            lb = self.lower(b, s)
            return None if lb is None else lb + off
        best = [x[2] for x in s if x[0] == 'lo' and x[1] == text(e)]
        if isinstance(e, ast.Name) and e.id in self.nonneg:
            best.append(0)
        return max(best) if best else None

    def upper(self, e, s):
        """{list: k} such that e is at most the length of the list plus k."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            return {text(e.args[0]): 0}
        if number(e) is not None:
            return {}
        b, off = split_offset(e)
        if off:
            return {n: k + off for n, k in self.upper(b, s).items()}
        out = {}
        for x in s:
            if x[0] == 'hi' and x[1] == text(e):
                n, k = x[2]
                out[n] = min(k, out.get(n, k))
        return out

    def le(self, a, b, strict, s):
        """Facts from a <= b (a < b)."""
        new = set()
        lb = self.lower(a, s)
        if lb is not None:
            base, off = split_offset(b)
            if number(base) is None:
                bound = lb + (1 if strict else 0) - off
                if bound >= 0:
                    new.add(self.fact('lo', base, bound))
        base, off = split_offset(a)
        if number(base) is None:
            for n, k in self.upper(b, s).items():
                k = k - off - (1 if strict else 0)
                if k <= 3:
                    new.add(self.fact('hi', base, (n, k)))
        return s | new

    def refine(self, test, s, truth):
        if isinstance(test, ast.Compare):
            parts = [test.left] + test.comparators
            todo = list(zip(test.ops, parts, parts[1:]))
            if not truth and len(todo) > 1:
                return s
            for _ in range(2):
                for op, a, b in todo:
                    o = type(op)
                    if not truth:
                        o = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq,
                             ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(o, o)
                    if o in (ast.Lt, ast.LtE):
                        s = self.le(a, b, o is ast.Lt, s)
                    elif o in (ast.Gt, ast.GtE):
                        s = self.le(b, a, o is ast.Gt, s)
                    elif o is ast.Eq:
                        s = self.le(b, a, False, self.le(a, b, False, s))
                    elif o is ast.In and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'range':
                        lo = b.args[0] if len(b.args) > 1 else ast.Constant(0)
                        hi = b.args[1] if len(b.args) > 1 else b.args[0]
                        if len(b.args) < 3:
                            s = self.le(a, hi, True, self.le(lo, a, False, s))
                    elif o is ast.NotEq and number(b) == 0 and self.lower(a, s) == 0:
                        s = s | {self.fact('lo', a, 1)}
            return s
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and truth and \
                test.func.attr in ('isdigit', 'isdecimal', 'isnumeric'):
            call = ast.Call(ast.Name('int', ast.Load()), [test.func.value], [])
            return s | {self.fact('lo', call, 0)}
        if truth and isinstance(test, (ast.Name, ast.Attribute, ast.Subscript)) and self.lower(test, s) == 0:
            return s | {self.fact('lo', test, 1)}
        return s


class Taint:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.types = Types(ctx.p)
        self.val = {}           # (function, name) -> level
        self.content = {}       # (function, name) -> {position in tuple or None: level}
        self.ret = {}           # function -> {position or None: level}
        self.flows = {}
        self.callers = {}
        self.changed = False

    # ---- levels
    def put(self, table, key, pos, level):
        d = table.setdefault(key, {})
        if d.get(pos, 0) < level:
            d[pos] = level
            self.changed = True

    def setval(self, f, name, level):
        if self.val.get((f, name), 0) < level:
            self.val[f, name] = level
            self.changed = True

    def is_text(self, e):
        if isinstance(e, (ast.Constant, ast.BinOp, ast.IfExp)):
            return False
        if isinstance(e, ast.Attribute) and e.attr in ('ord', '_ord'):
            return False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in NUMERIC_CALLS:
            return False
        return True

    def unsigned(self, f, e):
        """Is the text certainly a part between hyphens or digits only?"""
        if not isinstance(e, ast.Name):
            return False
        found = False
        for n in own_nodes(f.node):
            for t, v in self.bindings(n):
                names = [x for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == e.id]
                if not names:
                    continue
                if isinstance(n, ast.For) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                        v.func.id == 'zip' and isinstance(t, ast.Tuple):
                    k = [i for i, x in enumerate(t.elts) if x in names]
                    v = v.args[k[0]] if k and k[0] < len(v.args) else v
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('split', 'rsplit') and \
                        len(v.args) == 1 and isinstance(v.args[0], ast.Constant) and v.args[0].value == '-':
                    found = True
                else:
                    return False
        return found

    def bindings(self, n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                yield t, n.value
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
            yield n.target, n.value
        elif isinstance(n, (ast.For, ast.comprehension)):
            yield n.target, n.iter

    def facts(self, f, node):
        if f not in self.flows:
            nonneg = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and self.unsigned(f, n)}
            # names whose every assignment converts such a text
            ok = set()
            for n in own_nodes(f.node):
                for t, v in self.bindings(n):
                    for tt, vv in self.pairs(t, v):
                        if isinstance(tt, ast.Name) and self.level(f, vv, {}) == NONNEG:
                            ok.add(tt.id)
            bad = set()
            for n in own_nodes(f.node):
                for t, v in self.bindings(n):
                    for tt, vv in self.pairs(t, v):
                        if isinstance(tt, ast.Name) and tt.id in ok and self.level(f, vv, {}) != NONNEG and not (
                                number(vv) is not None and number(vv) >= 0 or isinstance(vv, ast.Constant)):
                            bad.add(tt.id)
            fl = Bounds(ok - bad)
            try:
                fl.run(f.node, {frozenset()})
                self.flows[f] = fl
            except (OverflowError, RecursionError) as err:
                self.ctx.undet(f'{f.qual}: {err}')
                self.flows[f] = None
        fl = self.flows[f]
        return (fl, fl.at.get(node, frozenset())) if fl is not None else (None, frozenset())

    @staticmethod
    def pairs(t, v):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            return list(zip(t.elts, v.elts))
        return [(t, v)]

    def level(self, f, e, facts=None):
        """How little is known about the sign of the number parsed from text that e may be; CLEAN if it is none."""
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('int', 'float') and len(e.args) == 1:
                if not self.is_text(e.args[0]):
                    return self.level(f, e.args[0]) if not isinstance(e.args[0], ast.Constant) else CLEAN
                return NONNEG if self.unsigned(f, e.args[0]) else ANY
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('pop', 'get', 'popleft'):
                return self.cont(f, e.func.value).get(None, 0)
            out = 0
            for key in self.types.calls.get(e, ()):
                g = self.p.functions.get(key)
                if g is not None:
                    out = max(out, self.ret.get(g, {}).get(None, 0))
            return out
        if isinstance(e, ast.Name):
            return self.val.get((f, e.id), 0)
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            c = self.cont(f, e.value)
            if isinstance(e.slice, ast.Constant) and e.slice.value in c:
                return c[e.slice.value]
            return c.get(None, 0)
        if isinstance(e, ast.BinOp):
            return max(self.level(f, e.left), self.level(f, e.right))
        if isinstance(e, ast.IfExp):
            return max(self.level(f, e.body), self.level(f, e.orelse))
        if isinstance(e, ast.BoolOp):
            return max(self.level(f, v) for v in e.values)
        return CLEAN

    def cont(self, f, e):
        """Levels of the elements of the container e."""
        while isinstance(e, ast.Subscript):
            e = e.value             # nested containers are merged
        if isinstance(e, ast.Name):
            return self.content.get((f, e.id), {})
        if isinstance(e, ast.Call):
            out = {}
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'values', 'pop', 'get', 'copy'):
                return self.cont(f, e.func.value)
            if isinstance(e.func, ast.Name) and e.func.id in ('sorted', 'list', 'tuple', 'reversed', 'set') and e.args:
                return self.cont(f, e.args[0])
            for key in self.types.calls.get(e, ()):
                g = self.p.functions.get(key)
                for k, v in self.ret.get(g, {}).items() if g is not None else ():
                    out[k] = max(out.get(k, 0), v)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = {}
            for i, x in enumerate(e.elts):
                lv = self.level(f, x)
                if lv:
                    out[i if isinstance(e, ast.Tuple) else None] = max(out.get(i if isinstance(e, ast.Tuple) else None, 0), lv)
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            lv = self.level(f, e.elt)
            return {None: lv} if lv else {}
        return {}

    def checked(self, f, e, node, need=0):
        fl, facts = self.facts(f, node)
        if fl is None:
            return True
        base, off = split_offset(e)
        lb = fl.lower(base, facts)
        return lb is not None and lb + off >= need

    # ---- propagation
    def step(self, f):
        for n in own_nodes(f.node):
            for t, v in self.bindings(n):
                loop = isinstance(n, (ast.For, ast.comprehension))
                for tt, vv in self.pairs(t, v) if not loop else [(t, v)]:
                    self.bind(f, tt, vv, loop)
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert', 'extend') and n.args:
                    x = n.args[-1]
                    base = n.func.value
                    while isinstance(base, (ast.Subscript, ast.Attribute)) and not isinstance(base, ast.Name):
                        base = base.value
                    if isinstance(base, ast.Name):
                        if n.func.attr == 'extend':
                            levels = self.cont(f, x)
                        elif isinstance(x, ast.Tuple):
                            levels = {i: (CLEAN if self.checked(f, y, n) else self.level(f, y)) for i, y in enumerate(x.elts)}
                        else:
                            levels = {None: CLEAN if self.checked(f, x, n) else self.level(f, x)}
                        for k, lv in levels.items():
                            if lv:
                                self.put(self.content, (f, base.id), k, lv)
                self.call(f, n)
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                v = n.value
                if isinstance(v, ast.Tuple):
                    for i, y in enumerate(v.elts):
                        lv = self.level(f, y)
                        if lv and not (isinstance(n, ast.Return) and self.checked(f, y, n)):
                            self.put(self.ret, f, i, lv)
                else:
                    lv = self.level(f, v)
                    if lv and not (isinstance(n, ast.Return) and self.checked(f, v, n)):
                        self.put(self.ret, f, None, lv)
                    for k, lv in self.cont(f, v).items():
                        self.put(self.ret, f, k, lv)

    def bind(self, f, t, v, loop):
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.cont(f, v)
            if loop and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'enumerate' and v.args:
                c = {1: self.cont(f, v.args[0]).get(None, 0)}
            elif loop and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'zip':
                c = {i: self.cont(f, a).get(None, 0) for i, a in enumerate(v.args)}
            for i, x in enumerate(t.elts):
                lv = max(c.get(i, 0), c.get(None, 0) if not loop else 0)
                if isinstance(x, ast.Name) and lv:
                    self.setval(f, x.id, lv)
                elif isinstance(x, (ast.Tuple, ast.List)):
                    for j, y in enumerate(x.elts):
                        if isinstance(y, ast.Name) and c.get(j, 0):
                            self.setval(f, y.id, c[j])
                elif isinstance(x, ast.Name) and c:
                    for k, lv in c.items():
                        if k is not None and loop:
                            self.put(self.content, (f, x.id), k, lv)
            return
        if not isinstance(t, ast.Name):
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                lv = self.level(f, v)
                if lv:
                    self.put(self.content, (f, t.value.id), None, lv)
            return
        c = self.cont(f, v)
        if loop:
            if c.get(None):
                self.setval(f, t.id, c[None])
            for k, lv in c.items():
                if k is not None:
                    self.put(self.content, (f, t.id), k, lv)
            return
        lv = self.level(f, v)
        if lv:
            self.setval(f, t.id, lv)
        if not isinstance(v, ast.Subscript):
            for k, lv in c.items():
                self.put(self.content, (f, t.id), k, lv)

    def call(self, f, n):
        for key in self.types.calls.get(n, ()):
            g = self.p.functions.get(key)
            if g is None:
                continue
            off = 1 if g.cls is not None and not g.is_static and isinstance(n.func, ast.Attribute) else 0
            args = [(g.params[i + off], a) for i, a in enumerate(n.args) if i + off < len(g.params)
                    and not isinstance(a, ast.Starred)]
            args += [(k.arg, k.value) for k in n.keywords if k.arg in g.params]
            for name, a in args:
                lv = self.level(f, a)
                if lv and not self.checked(f, a, n):
                    self.setval(g, name, lv)
                for k, lv in self.cont(f, a).items():
                    self.put(self.content, (g, name), k, lv)
                if isinstance(a, ast.Name):
                    for k, lv in self.content.get((g, name), {}).items():
                        self.put(self.content, (f, a.id), k, lv)

    def solve(self):
        fs = [f for f in self.p.functions.values() if '/tests/' not in f.module.path]
        for _ in range(12):
            self.changed = False
            for f in fs:
                self.step(f)
            if not self.changed:
                return True
            self.flows = {f: v for f, v in self.flows.items() if v is None}
        return False

    # ---- places where words are selected
    def words(self, f, e):
        out = False
        for v in self.types.of(f.module, f, e):
            if v[0] == 'o' and v[1] in ('list', 'tuple'):
                for x in self.types.content_of(v):
                    if x[0] in ('I', 'i') and x[1] in NODES:
                        out = True
            elif v[0] in ('I', 'i') and v[1].endswith('ListOfNodes'):
                out = True
        return out

    def has_root(self, f, e):
        return any(x[0] in ('I', 'i') and x[1] == NODES[2] for v in self.types.of(f.module, f, e)
                   if v[0] == 'o' and v[1] == 'list' for x in self.types.content_of(v))

    def sinks(self):
        for f in self.p.functions.values():
            if '/tests/' in f.module.path:
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    sl = n.slice
                    parts = [x for x in (sl.lower, sl.upper) if x is not None] if isinstance(sl, ast.Slice) else [sl]
                    hot = [(x, self.level(f, x)) for x in parts]
                    if self.words(f, n.value):
                        yield f, n, [(x, lv) for x, lv in hot if lv]


def run(ctx):
    ctx.rule('negative', 'a number from the input selects a word only after negative numbers were excluded')
    ctx.rule('clipped', 'a range from the input selects words only after it was compared with the number of words')
    t = Taint(ctx)
    if not t.solve():
        ctx.undet('propagation did not finish')
    for (f, name), lv in sorted(t.val.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        ctx.count('variables holding parsed numbers')
    for f, n, hot in t.sinks():
        ctx.count('selections of words')
        if not hot:
            continue
        ctx.count('selections by parsed numbers')
        ok = True
        fl, facts = t.facts(f, n)
        for x, lv in hot:
            need = 1 if isinstance(n.slice, ast.Slice) and x is n.slice.lower and t.has_root(f, n.value) else 0
            if not t.checked(f, x, n, need):
                base, off = split_offset(x)
                ctx.find('negative', f.module.path, n.lineno, f'{f.qual} {text(n)[:60]}',
                         f'{text(n)[:60]}: {text(x)} comes from the input and may be {"less than 1" if need else "negative"} here')
                ok = False
        sl = n.slice
        if ok and isinstance(sl, ast.Slice):
            for x, lv in hot:
                if x is not sl.upper or fl is None:
                    continue
                limits = fl.upper(x, facts)
                own = limits.get(text(n.value))
                if own is not None and own > 0 or not limits:
                    if any(isinstance(c, ast.Compare) and 'len(' in text(c) for c in own_nodes(f.node)
                           if isinstance(c, ast.Compare) and c.lineno >= n.lineno):
                        ctx.undet(f'{f.qual}:{n.lineno}: {text(n)[:50]} compared later')
                    else:
                        ctx.find('clipped', f.module.path, n.lineno, f'{f.qual} {text(n)[:60]}',
                                 f'{text(n)[:60]}: {text(x)} comes from the input and may lie beyond the last word')
                    ok = False
        if ok:
            ctx.ok(f'{f.qual}:{n.lineno}: {text(n)[:60]}')
    ctx.floor('variables holding parsed numbers', 4)
    ctx.floor('selections by parsed numbers', 4)
    ctx.floor('selections of words', 30)
