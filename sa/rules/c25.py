"""C25: the number of a word is its position in the sentence."""
import ast

from .. import absint
from ..absint import C, NONE, O, T, add, is_c, is_gap
from ..project import own_nodes
from ..exact import Exact
from ..tree import AT, EMPTY_Q, Forest, NODE_Q, ROOT_Q, TreeHook, items_of, operations
from ..types import Types

EXPLANATION = ('Abstract interpretation of creating, removing, re-attaching, flattening and transferring nodes: the tracked '
               'nodes start with their number equal to their symbolic position among unknown other words, and after '
               'every path the number is compared with the new position. Code that writes to a position of the word '
               'list, or appends to it, is checked for giving the word at that position the matching number.')
TECHNIQUE = 'abstract interpretation with symbolic positions; paired-update analysis of writes to the word list'

ORD = ('_ord', 'ord')


def position(items, k):
    pos = C(1)
    for x in items[:k]:
        pos = add(pos, T('gaplen', x[1]) if is_gap(x) else C(1))
    return pos


class Numbered(Forest):
    """A forest whose tracked nodes are numbered by their positions, with unknown words before, between and after."""

    def __init__(self, *a, gaps=True, **k):
        super().__init__(*a, gaps=gaps, **k)
        st = self.st
        for r in self.roots:
            ds = st.heap['DS' + r]
            items = list(ds.items)
            if gaps and r == self.roots[0] and len(items) > 5:
                for tag, at in (('dmid', 4), ('dend', len(items) + 1)):
                    items.insert(at, absint.gap(f'{tag}:{r}', O('wd' + r)))
            ds.items = tuple(items)
            for i, x in enumerate(items):
                if not is_gap(x):
                    st.heap[x[1]].attrs['_ord'] = position(items, i)
        self.pre = st.fork()


def check_runs(ctx):
    for r in operations(ctx.p, ('parent', 'create', 'remove', 'flatten', 'steal'), forest=Numbered):
        ctx.count('operations interpreted')
        if r.results is None:
            ctx.undet(f'{r.label}: {r.why}')
            continue
        for fl, st in r.results:
            if fl is not None:
                continue
            if st.tainted:
                ctx.undet(f'{r.label}: {st.tainted[0]}')
                continue
            bad, vague = None, None
            for root in r.forest.roots:
                items = items_of(st, st.heap[root].attrs.get('_descendants'))
                if items is None:
                    vague = f'words of {root}'
                    continue
                for i, x in enumerate(items):
                    if is_gap(x) or x[0] != 'o' or x[1] not in st.heap or st.heap[x[1]].weak:
                        continue
                    ctx.count('positions compared')
                    got, want = st.heap[x[1]].attrs.get('_ord'), position(items, i)
                    if got == want:
                        continue
                    diff = add(got, want, -1) if got is not None else None
                    if diff is None or diff[0] == 'lin' and any(t[0] == 's' for t, _ in diff[2]) or \
                            diff[0] in ('s', 'top'):
                        vague = f'number of {x[1]} unknown'
                    else:
                        bad = bad or (x[1], diff)
            if bad:
                n, d = bad
                what = f'off by {d[2]}' if d[0] == 'c' else 'not its position'
                ctx.find('position', r.func.module.path, r.func.lineno, r.func.qual,
                         f'after {r.label} the number of the word {n} is {what}')
            elif vague:
                ctx.undet(f'{r.label}: {vague}')
            else:
                ctx.ok(f'{r.label}: numbers are positions')


# ------------------------------------------------------------------------------------------- writes to the word list
def linear(e, env, depth=0):
    """(const, {text: coefficient}) of an index expression, with local single assignments substituted."""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value, {}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = linear(e.left, env, depth), linear(e.right, env, depth)
        k = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(a[1])
        for t, n in b[1].items():
            out[t] = out.get(t, 0) + k * n
        return a[0] + k * b[0], {t: n for t, n in out.items() if n}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        c, d = linear(e.operand, env, depth)
        return -c, {t: -n for t, n in d.items()}
    if isinstance(e, ast.Name) and e.id in env and depth < 6:
        return linear(env[e.id], env, depth + 1)
    return 0, {ast.unparse(e): 1}


def diff(a, b):
    out = dict(a[1])
    for t, n in b[1].items():
        out[t] = out.get(t, 0) - n
    out = {t: n for t, n in out.items() if n}
    return None if out else a[0] - b[0]


def pairs(s):
    """(target, value) pairs of an assignment statement."""
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and \
                    len(t.elts) == len(s.value.elts):
                yield from zip(t.elts, s.value.elts)
            else:
                yield t, s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        yield s.target, s.value


def blocks(node):
    for n in [node] + list(own_nodes(node)):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


class Writes:
    """Writes to lists of all words of a tree in one function."""

    def __init__(self, f, is_list):
        self.f, self.is_list = f, is_list
        self.stores = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.stores[n.id] = self.stores.get(n.id, 0) + 1

    def block_env(self, block, upto):
        """Names whose value at `upto` is a plain expression over other names of that moment."""
        env = {}
        for s in block:
            if s is upto:
                break
            gone = self.touched(s)
            env = {k: v for k, v in env.items() if k not in gone and not gone & {
                n.id for n in ast.walk(v) if isinstance(n, ast.Name)}}
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t, v in pairs(s):
                    if isinstance(t, ast.Name) and isinstance(v, (ast.BinOp, ast.Name)) and not gone & {
                            n.id for n in ast.walk(v) if isinstance(n, ast.Name)}:
                        env[t.id] = v
        return env

    def touched(self, s):
        return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}

    def slots(self):
        """(statement, list expr, index expr, value expr, verdict, detail)"""
        for owner, block in blocks(self.f.node):
            for i, s in enumerate(block):
                for t, v in pairs(s):
                    if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and self.is_list(t.value):
                        yield (s, t, v) + self.judge(owner, block, i, s, t, v)

    def judge(self, owner, block, i, s, t, v):
        env = self.block_env(block, s)
        idx = linear(t.slice, env)
        # the numbers given in the same straight line of statements, while the index and the value keep their meaning
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)} | {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}
        found = []
        for rng in (range(i, len(block)), range(i - 1, -1, -1)):
            for j in rng:
                r = block[j]
                if j != i and self.touched(r) & names and not self.defines(r, v, env):
                    self.collect(r, t, v, idx, env, found, j)
                    break
                if isinstance(r, (ast.For, ast.While, ast.If, ast.Try, ast.With)):
                    if j != i:
                        break
                self.collect(r, t, v, idx, env, found, j)
                if j < i and self.touched(r) & names:
                    break
        if found:
            bad = [x for x in found if x[1] != 1]
            good = [x for x in found if x[1] == 1]
            if good:
                return 'ok', ''
            if all(x[1] is not None or x[2] for x in bad):
                return 'bad', f'the word at index {ast.unparse(t.slice)} gets the number {bad[0][0]}'
            return '?', ''
        if self.renumbered_after(s):
            return 'ok', ''
        for n in ast.walk(owner if owner is not self.f.node else ast.Module(body=block, type_ignores=[])):
            if isinstance(n, ast.Attribute) and n.attr in ORD and isinstance(n.ctx, ast.Store):
                return '?', ''
            if isinstance(n, ast.Call) and not isinstance(n.func, ast.Name) and any(
                    isinstance(a, ast.Name) and isinstance(v, ast.Name) and a.id == v.id for a in n.args):
                return '?', ''
        return 'bad', f'the word put at index {ast.unparse(t.slice)} keeps its old number'

    def defines(self, r, v, env):
        return any(isinstance(t, ast.Name) and t.id in env for t, _ in pairs(r))

    def collect(self, r, t, v, idx, env, found, j):
        for tt, vv in pairs(r):
            if not (isinstance(tt, ast.Attribute) and tt.attr in ORD):
                continue
            o = tt.value
            same = ast.unparse(o) == ast.unparse(v) or isinstance(o, ast.Subscript) and \
                ast.unparse(o.value) == ast.unparse(t.value) and diff(linear(o.slice, env), idx) == 0
            if same:
                lv = linear(vv, env)
                # different counters of the same loop
                plain = all(k.isidentifier() and k in self.stores for k in list(lv[1]) + list(idx[1]))
                found.append((ast.unparse(vv), diff(lv, idx), plain))

    def renumbered_after(self, s):
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.For) and n.lineno > s.lineno and isinstance(n.iter, ast.Call) and \
                    isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and n.iter.args and \
                    self.is_list(n.iter.args[0]):
                return True
        return False

    def appends(self):
        """(call, verdict, detail) for words appended directly to the list."""
        for owner, block in blocks(self.f.node):
            for i, s in enumerate(block):
                c = s.value if isinstance(s, ast.Expr) else None
                if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and
                        len(c.args) == 1 and self.is_list(c.func.value)):
                    continue
                base, obj = ast.unparse(c.func.value), ast.unparse(c.args[0])
                verdict, detail = 'bad', f'{obj} is appended to the words of the tree without a number'
                for j, r in enumerate(block):
                    for t, v in pairs(r):
                        if isinstance(t, ast.Attribute) and t.attr in ORD and ast.unparse(t.value) == obj:
                            verdict, detail = self.number(block, i, j, base, v, t)
                    for n in ast.walk(r):
                        # checked against the position, with an error otherwise
                        if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body) and \
                                isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], ast.NotEq):
                            sides = [n.test.left, n.test.comparators[0]]
                            for a, b in (sides, sides[::-1]):
                                if isinstance(a, ast.Attribute) and a.attr in ORD and ast.unparse(a.value) == obj:
                                    got = self.number(block, i, j, base, b, a)
                                    if got[0] != 'bad' or verdict == 'bad':
                                        verdict, detail = got
                yield c, verdict, detail

    def number(self, block, i, j, base, v, t):
        lens = [n for n in ast.walk(v) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len']
        if not lens:
            reads = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'int' for n in ast.walk(v))
            if reads:
                return 'bad', f'{ast.unparse(t)} is taken from the input ({ast.unparse(v)}) and not compared with the position'
            return '?', ''
        d = diff(linear(v, self.block_env(block, block[j])), (0, {f'len({base})': 1}))
        if d is None:
            return '?', ''
        want = 0 if j > i else 1
        return ('ok', '') if d == want else ('bad', f'{ast.unparse(t)} differs from the position by {d - want}')


def list_tests(p, types):
    """For each function: a predicate telling which expressions are lists of all words of a tree."""
    alias = {}

    def direct(e, names):
        return isinstance(e, ast.Attribute) and e.attr == '_descendants' or isinstance(e, ast.Name) and e.id in names

    changed = True
    while changed:
        changed = False
        for f in p.functions.values():
            names = alias.setdefault(f, set())
            before = len(names)
            for n in own_nodes(f.node):
                for t, v in pairs(n):
                    if isinstance(t, ast.Name) and direct(v, names):
                        names.add(t.id)
                if isinstance(n, ast.Call):
                    hits = [(k, a) for k, a in enumerate(n.args) if direct(a, names)]
                    if not hits:
                        continue
                    for key in types.calls.get(n, ()):
                        g = p.functions.get(key)
                        if g is None:
                            continue
                        off = 1 if g.cls is not None and isinstance(n.func, ast.Attribute) and not g.is_static else 0
                        for k, _ in hits:
                            if k + off < len(g.params):
                                s = alias.setdefault(g, set())
                                if g.params[k + off] not in s:
                                    s.add(g.params[k + off])
                                    changed = True
            changed |= len(names) != before
    return {f: (lambda e, names=names: direct(e, names)) for f, names in alias.items()}


def check_writes(ctx):
    tests = list_tests(ctx.p, Types(ctx.p))
    for f, test in tests.items():
        w = Writes(f, test)
        for s, t, v, verdict, detail in w.slots():
            ctx.count('positions written')
            if verdict == 'bad':
                ctx.find('slot-number', f.module.path, s.lineno, f'{f.qual}', detail)
            elif verdict == '?':
                ctx.undet(f'{f.qual}:{s.lineno}: {ast.unparse(s)[:60]}')
            else:
                ctx.ok(f'{f.qual}:{s.lineno}: {ast.unparse(s)[:60]}')
        for c, verdict, detail in w.appends():
            ctx.count('words appended')
            if verdict == 'bad':
                ctx.find('append-number', f.module.path, c.lineno, f'{f.qual}', detail)
            elif verdict == '?':
                ctx.undet(f'{f.qual}:{c.lineno}: {ast.unparse(c)}')
            else:
                ctx.ok(f'{f.qual}:{c.lineno}: {ast.unparse(c)}')


# ------------------------------------------------------------------------------------------- moves in the word order
SHAPES = ({'P': 'R', 'A': 'P', 'S': 'P', 'X': 'A', 'Y': 'X', 'V': 'Y', 'N': 'R', 'M': 'N'},
          {'A': 'R', 'B': 'D', 'X': 'A', 'D': 'R', 'Y': 'A', 'E': 'B', 'Z': 'X', 'F': 'D', 'G': 'A'},
          {'A': 'G', 'B': 'A', 'X': 'D', 'D': 'G', 'Y': 'X', 'E': 'B', 'G': 'R'})
MOVES = ('shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree')


def below(shape, n):
    out, todo = {n}, [n]
    while todo:
        x = todo.pop()
        for k, par in shape.items():
            if par == x and k not in out:
                out.add(k)
                todo.append(k)
    return out


def wanted(shape, who, name, ref, wc):
    """The word order after the move, or None when it is not specified (a word moved relatively to itself)."""
    words = list(shape)
    moving = {who} if wc else below(shape, who)
    if ref in moving:
        return None
    if ref == 'R':
        at = set(words) if 'subtree' in name else set()
    else:
        at = below(shape, ref) if 'subtree' in name else {ref}
    rest = [w for w in words if w not in moving]
    hit = [i for i, w in enumerate(rest) if w in at]
    if not hit:
        k = 0
    else:
        k = hit[-1] + 1 if 'after' in name else hit[0]
    return rest[:k] + [w for w in words if w in moving] + rest[k:]


def beside(shape, got, who, name, ref, wc):
    """A word moved beside a subtree it belongs to: all moved words together, after (before) the other words of the subtree."""
    moving = {who} if wc else below(shape, who)
    at = [got.index(w) for w in below(shape, ref) - moving]
    mine = [i for i, w in enumerate(got) if w in moving]
    return [w for w in got if w not in moving] == [w for w in shape if w not in moving] and \
        [got[i] for i in mine] == [w for w in shape if w in moving] and mine == list(range(mine[0], mine[-1] + 1)) and \
        (not at or (mine[0] > max(at) if 'after' in name else mine[-1] < min(at)))


def moves(p):
    """(label, method, shape, (who, name, ref, wc), results or None, why) of every move on trees with known word order."""
    absint.ALLOC_LIMIT[0] = 400
    for shape in SHAPES:
        for name in MOVES:
            m = p.classes[NODE_Q].find_method(name)
            if m is None:
                continue
            for who in shape:
                for ref in list(shape) + ['R']:
                    for wc in (False, True):
                        label = f'{who}.{name}({ref}{", without_children" if wc else ""}) in ' + \
                            ' '.join(f'{w}<{h}' for w, h in shape.items())
                        fo = Forest(p, {'R': shape}, gaps=False, empties=False)
                        st = fo.start()
                        for i, w in enumerate(shape, 1):
                            st.heap[w].attrs['_ord'] = C(i)
                        it = Exact(p, hook=TreeHook(), budget=60000)
                        try:
                            res, why = it.call_func(m, [O(who), O(ref), C(wc)], {}, st, AT), None
                        except (absint.Undetermined, RecursionError) as e:
                            res, why = None, str(e)
                        yield label, m, shape, (who, name, ref, wc), res, why
    absint.ALLOC_LIMIT[0] = 8


def check_moves(ctx):
    for label, m, shape, (who, name, ref, wc), res, why in moves(ctx.p):
        if res is None:
            ctx.undet(f'{label}: {why}')
            continue
        ctx.count('moves interpreted')
        for fl, s in res:
            if fl is None or fl[0] != '!raise':
                judge_move(ctx, label, m, shape, who, name, ref, wc, s)


def judge_move(ctx, label, m, shape, who, name, ref, wc, s):
    items = items_of(s, s.heap['R'].attrs.get('_descendants'))
    if s.tainted or items is None or any(is_gap(x) or x[0] != 'o' for x in items):
        ctx.undet(label)
        return
    got = [x[1] for x in items]
    want = wanted(shape, who, name, ref, wc)
    nums = [s.heap[x].attrs.get('_ord') for x in got]
    bad = None
    if any(n is None or not is_c(n) for n in nums):
        ctx.undet(label)
        return
    if sorted(got) != sorted(shape):
        bad = f'after {label} the tree lists the words {" ".join(got)}'
    elif [n[2] for n in nums] != list(range(1, len(got) + 1)):
        bad = f'after {label} the words {" ".join(got)} have the numbers {" ".join(str(n[2]) for n in nums)}'
    elif want is not None and got != want and not (
            'subtree' in name and ref != 'R' and who in below(shape, ref) and beside(shape, got, who, name, ref, wc)):
        bad = f'after {label} the words are {" ".join(got)} instead of {" ".join(want)}'
    if bad:
        ctx.find('moved-order', m.module.path, m.lineno, m.qual, bad)
    else:
        ctx.ok()


def run(ctx):
    ctx.rule('moved-order', 'after a move in the word order the moved words are next to the reference, all others keep their order, '
             'and all have their positions as numbers')
    ctx.rule('position', 'after an operation every word has its position in the sentence as its number')
    ctx.rule('slot-number', 'a word put at a position of the word list gets the number of that position')
    ctx.rule('append-number', 'a word appended to the word list gets the number of the last position')
    check_runs(ctx)
    check_writes(ctx)
    check_moves(ctx)
    ctx.floor('moves interpreted', 600)
    ctx.floor('operations interpreted', 60)
    ctx.floor('positions compared', 500)
    ctx.floor('words appended', 2)
