"""C09: what a tree says about itself agrees with its edges and its word order."""
import itertools

from ..absint import C, Undetermined, is_c, is_raise
from ..text import Text, client, hole

EXPLANATION = ('Abstract interpretation of client programs that build a tree and ask it about every node and pair of nodes, for all trees '
               'of up to four (thorough: many of five) words, with word numbers and heads as constants and all forms opaque; the answers are '
               'compared with the definitions of the queries, computed from the heads alone.')
TECHNIQUE = 'abstract interpretation with constant tree shapes and opaque contents, compared with the definitions'

CLIENT = '''
from udapi.core.document import Document
from udapi.core.node import find_minimal_common_treelet


def words(forms, *deprels):
    root = Document().create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form)
    for node, deprel in zip(root.descendants, deprels):
        node.deprel = deprel
    return [root, list(root.descendants)]


def hang(w, order):
    for i, h in order:
        w[1][i - 1].parent = w[1][h - 1] if h else w[0]


def ords(nodes):
    return tuple([n.ord for n in nodes])


def queries(w):
    root, nodes = w
    res = []
    for n in [root] + nodes:
        res.append(('children', n.ord, ords(n.children)))
        res.append(('children(add_self=True)', n.ord, ords(n.children(add_self=True))))
        res.append(('children(preceding_only=True)', n.ord, ords(n.children(preceding_only=True))))
        res.append(('children(following_only=True)', n.ord, ords(n.children(following_only=True))))
        res.append(('children(preceding_only=True, add_self=True)', n.ord, ords(n.children(preceding_only=True, add_self=True))))
        res.append(('children(following_only=True, add_self=True)', n.ord, ords(n.children(following_only=True, add_self=True))))
        res.append(('descendants', n.ord, ords(n.descendants)))
        res.append(('descendants()', n.ord, ords(n.descendants())))
        res.append(('descendants(add_self=True)', n.ord, ords(n.descendants(add_self=True))))
        res.append(('descendants(preceding_only=True)', n.ord, ords(n.descendants(preceding_only=True))))
        res.append(('descendants(following_only=True)', n.ord, ords(n.descendants(following_only=True))))
        res.append(('descendants(preceding_only=True, add_self=True)', n.ord, ords(n.descendants(preceding_only=True, add_self=True))))
        res.append(('descendants(following_only=True, add_self=True)', n.ord, ords(n.descendants(following_only=True, add_self=True))))
        res.append(('unordered_descendants()', n.ord, ords(sorted(n.unordered_descendants()))))
        res.append(('is_leaf()', n.ord, n.is_leaf()))
        res.append(('is_root()', n.ord, n.is_root()))
        res.append(('is_nonprojective()', n.ord, n.is_nonprojective()))
        res.append(('is_nonprojective_gap()', n.ord, n.is_nonprojective_gap()))
        res.append(('next_node', n.ord, n.next_node.ord if n.next_node is not None else None))
        res.append(('prev_node', n.ord, n.prev_node.ord if n.prev_node is not None else None))
        res.append(('root', n.ord, n.root is root))
        for m in [root] + nodes:
            res.append(('is_descendant_of', n.ord, m.ord, n.is_descendant_of(m)))
            res.append(('precedes', n.ord, m.ord, n.precedes(m)))
            res.append(('<', n.ord, m.ord, n < m))
            res.append(('<=', n.ord, m.ord, n <= m))
            res.append(('==', n.ord, m.ord, n == m))
    for n in nodes:
        res.append(('siblings', n.ord, ords(n.siblings)))
        res.append(('siblings(preceding_only=True)', n.ord, ords(n.siblings(preceding_only=True))))
        res.append(('siblings(following_only=True)', n.ord, ords(n.siblings(following_only=True))))
        res.append(('siblings(add_self=True)', n.ord, ords(n.siblings(add_self=True))))
    res.append(('len(descendants)', len(root.descendants)))
    return res


def attributes(w, attrs):
    return [(n.ord, name, tuple(n.get_attrs([name], stringify=False)), tuple(n.get_attrs([name])), tuple(n.get_attrs([name], undefs='?')))
            for n in w[1] for name in attrs]


def both(w, attrs):
    return [tuple(n.get_attrs(attrs)) for n in w[1]]


def treelets(w, sets):
    nodes = [w[0]] + w[1]
    res = []
    for s in sets:
        top, added = find_minimal_common_treelet(*[nodes[i] for i in s])
        res.append((top.ord, tuple(sorted([n.ord for n in added]))))
    return res


def with_tokens(w, tokens, nospace):
    root, nodes = w
    for a, b, form in tokens:
        mwt = root.create_multiword_token(nodes[a - 1:b], form=form)
        if ('t', a) in nospace:
            mwt.misc['SpaceAfter'] = 'No'
    for n in nodes:
        if ('w', n.ord) in nospace:
            n.misc['SpaceAfter'] = 'No'
    res = [root.compute_text(), root.compute_text(use_mwt=False), tuple([t.form for t in root.token_descendants]),
           tuple([n.compute_text() for n in nodes]), root.get_sentence(), tuple([tuple([m.ord for m in t.words]) for t in root.token_descendants]),
           tuple([t.no_space_after for t in root.token_descendants]), tuple([m.ord_range for m in root.multiword_tokens])]
    root.text = 'x'
    res.append(root.get_sentence())
    return res
'''


def tree(heads):
    for i in range(1, len(heads) + 1):
        seen = set()
        while i:
            if i in seen:
                return False
            seen.add(i)
            i = heads[i - 1]
    return True


def trees(n):
    return [h for h in itertools.product(range(n + 1), repeat=n) if tree(h)]


class Spec:
    """The definitions."""

    def __init__(self, heads):
        self.n = len(heads)
        self.heads = (None,) + heads
        self.all = range(self.n + 1)
        self.up = {i: self.ancestors(i) for i in self.all}

    def ancestors(self, i):
        res = []
        while i:
            i = self.heads[i]
            res.append(i)
        return res

    def children(self, i):
        return [j for j in self.all if j and self.heads[j] == i]

    def descendants(self, i):
        return [j for j in self.all if i in self.up[j]]

    def siblings(self, i):
        return [j for j in self.children(self.heads[i]) if j != i]

    def nonprojective(self, i):
        h = self.heads[i]
        if not h:
            return False
        return any(h not in self.up[j] for j in range(min(i, h) + 1, max(i, h)))

    def gap(self, i):
        for x in self.all:
            if x and i not in self.descendants(x) and i != x:
                span = self.descendants(x) + [x]
                if min(span) < i < max(span):
                    return True
        return False

    def subset(self, nodes, i, how):
        res = sorted(nodes + ([i] if 'add_self' in how else []))
        if 'preceding' in how:
            res = [j for j in res if j <= i]
        if 'following' in how:
            res = [j for j in res if j >= i]
        return tuple(res)

    def query(self, name, i, j=None):
        if name.startswith(('children', 'descendants', 'siblings', 'unordered')):
            base, _, how = name.partition('(')
            nodes = getattr(self, base.replace('unordered_', ''))(i)
            return self.subset(nodes, i, how)
        return {
            'is_leaf()': lambda: not self.children(i), 'is_root()': lambda: i == 0,
            'is_nonprojective()': lambda: bool(i) and self.nonprojective(i), 'is_nonprojective_gap()': lambda: bool(i) and self.gap(i),
            'next_node': lambda: i + 1 if i < self.n else None, 'prev_node': lambda: i - 1 if i else None, 'root': lambda: True,
            'is_descendant_of': lambda: j in self.up[i], 'precedes': lambda: i < j, '<': lambda: i < j, '<=': lambda: i <= j,
            '==': lambda: i == j, 'len(descendants)': lambda: self.n}[name]()

    def treelet(self, nodes):
        paths = {i: [i] + self.up[i] for i in nodes}
        top = next(a for a in paths[nodes[0]] if all(a in p for p in paths.values()))
        inside = {a for p in paths.values() for a in p[:p.index(top) + 1]}
        return top, tuple(sorted(inside - set(nodes)))

    def attr(self, i, name, forms):
        kind, nodes = name[:2], [i]
        if kind in ('p_', 'c_', 'l_', 'r_'):
            name = name[2:]
            nodes = {'p_': lambda: [self.heads[i]], 'c_': lambda: self.children(i), 'l_': lambda: [i - 1],
                     'r_': lambda: [i + 1] if i < self.n else []}[kind]()
        return [self.value(j, name, forms) for j in nodes if j is not None]

    def value(self, i, name, forms):
        h = self.heads[i]
        return {'form': lambda: forms[i - 1] if i else '<ROOT>', 'ord': lambda: i, 'lemma': lambda: None if i else '<ROOT>',
                'dir': lambda: 'root' if not h else 'left' if i < h else 'right', 'edge': lambda: i - h if h else 0,
                'children': lambda: len(self.children(i)), 'siblings': lambda: len(self.siblings(i)) if i else 0,
                'depth': lambda: len(self.up[i])}[name]()

    def text(self, i, forms, tokens, nospace, use_mwt=True):
        """Text of a subtree (of the whole tree for 0), and the (form, words) of its tokens."""
        words = [j for j in self.all if j and (j == i or i in self.up[j])]
        out, toks = '', []
        done = 0
        for j in words:
            tok = next((t for t in tokens if t[0] <= j <= t[1]), None) if use_mwt else None
            if tok:
                if j > done:
                    done = tok[1]
                    toks.append((tok[2], tuple(range(tok[0], tok[1] + 1)), ('t', tok[0]) in nospace))
                continue
            toks.append((forms[j - 1], (j,), ('w', j) in nospace))
        for form, _, no in toks:
            out += form + ('' if no else ' ')
        return out.rstrip(), toks


ATTRS = ('form', 'ord', 'lemma', 'dir', 'edge', 'children', 'siblings', 'depth')


class Judge:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.steps = 75000000 if ctx.tier == 'thorough' else 30000000
        client(self.p, CLIENT)
        self.node = self.p.classes['udapi.core.node.Node']

    def interpreter(self):
        return Text(self.p, budget=300000)

    def call(self, label, func, args, st, kwargs=()):
        """The one (value, state), or None."""
        if self.steps <= 0:
            self.ctx.undet('the budget of this check is used up')
            return None
        it = self.interpreter()
        try:
            res = it.call_func(self.p.functions['@client.' + func], list(args), {k: C(v) for k, v in dict(kwargs).items()},
                               st.fork() if st is not None else it.start(), it.node)
        except Undetermined as e:
            self.ctx.undet(f'{label}: {e}')
            return None
        except RecursionError:
            self.ctx.undet(f'{label}: recursion')
            return None
        finally:
            self.steps -= it.steps
        if len(res) != 1 or res[0][1].tainted or res[0][1].facts:
            self.ctx.undet(f'{label}: {res[0][1].tainted[0] if res and res[0][1].tainted else "unknown conditions"}')
            return None
        return res[0]

    def plain(self, v, st):
        """Python value of an interpreted one (None for Undetermined)."""
        if is_c(v):
            return v[2]
        if v[0] in ('tup', 'seq'):
            return tuple(self.plain(x, st) for x in v[1])
        if v[0] == 'o' and st.heap[v[1]].kind == 'list':
            return [self.plain(x, st) for x in st.heap[v[1]].items]
        raise ValueError

    def ask(self, rule, label, fn, func, args, st, kwargs=()):
        res = self.call(label, func, args, st, kwargs)
        if res is None:
            return None
        v, s = res
        if is_raise(v):
            self.ctx.find(rule, fn.module.path, fn.lineno, fn.qual, f'{label}: {v[1][1]} is raised')
            return None
        try:
            return self.plain(v, s), s
        except ValueError:
            self.ctx.undet(f'{label}: unknown answer')
            return None

    def find(self, rule, name, msg):
        base = name.partition('(')[0]
        fn = {'<': '__lt__', '<=': '__lt__', 'get_attrs': 'get_attrs'}.get(base, base)
        f = self.node.find_method(fn) or self.node.find_getter(fn) or self.node.find_method('get_attrs')
        if '(' in name and base in ('children', 'descendants', 'siblings') and name[-2] != '(':
            f = self.p.classes['udapi.core.node.ListOfNodes'].find_method('__call__') or f
        self.ctx.find(rule, f.module.path, f.lineno, f.qual, msg)


def run(ctx):
    ctx.rule('queries', 'children, descendants, siblings, neighbours, order and projectivity are as defined by heads and word numbers')
    ctx.rule('attributes', 'get_attrs gives the attributes and pseudo-attributes of the nodes that the prefix names')
    ctx.rule('treelets', 'find_minimal_common_treelet gives the lowest common ancestor and the nodes in between')
    ctx.rule('texts', 'text and tokens are the forms of the words or tokens in their order, with spaces where SpaceAfter=No is missing')
    deep = ctx.tier == 'thorough'
    j = Judge(ctx)
    for n in range(1, 6 if deep else 5):
        forms = tuple(hole(i) for i in range(1, n + 1))
        base = j.call(f'{n} words', 'words', [('tup', tuple(C(f) for f in forms))], None)
        if base is None or is_raise(base[0]):
            ctx.undet(f'a tree of {n} words cannot be built')
            continue
        for heads in trees(n)[::3 if n > 4 else 1]:
            one(ctx, j, base, heads, forms, deep)
    texts(ctx, j, deep)
    ctx.floor('trees', 100)


def hung(j, base, heads):
    """State in which the tree has the given heads."""
    spec = Spec(heads)
    order = sorted(range(1, len(heads) + 1), key=lambda i: len(spec.up[i]))
    res = j.call(f'heads {heads}', 'hang', [base[0], ('tup', tuple(('tup', (C(i), C(heads[i - 1]))) for i in order))], base[1])
    return (spec, res[1]) if res is not None and not is_raise(res[0]) else None


def one(ctx, j, base, heads, forms, deep):
    ctx.count('trees')
    h = hung(j, base, heads)
    if h is None:
        ctx.undet(f'heads {heads}: the tree cannot be built')
        return
    spec, st = h
    n = len(heads)
    w = base[0]
    got = j.ask('queries', f'heads {heads}', j.node.find_getter('descendants'), 'queries', [w], st)
    for name, *args, value in got[0] if got else ():
        want = spec.query(name, *args if args else (None,))
        ctx.count('answers compared')
        if value != want:
            j.find('queries', name, f'heads {heads}: {name} of node {args[0] if args else 0}{f" and {args[1]}" if len(args) > 1 else ""} is {value} '
                   f'instead of {want}')
        else:
            ctx.ok(f'{heads}: {name} {args}')
    names = [p + a for p in ('', 'p_', 'c_', 'l_', 'r_') for a in ATTRS]
    if n > 3 and not deep:
        names = [x for k, x in enumerate(names) if k % 4 == sum(heads) % 4]
    got = j.ask('attributes', f'heads {heads}', j.node.find_method('get_attrs'), 'attributes', [w, ('tup', tuple(map(C, names)))], st)
    for i, name, plain, text, undef in got[0] if got else ():
        ctx.count('answers compared')
        want = spec.attr(i, name, forms)
        if plain != tuple(want) or text != tuple(str(x) if x is not None else None for x in want) or \
                undef != tuple(str(x) if x is not None else '?' for x in want):
            j.find('attributes', 'get_attrs', f'heads {heads}: attribute {name} of word {i} is {plain}, {text} or {undef} instead of {want}')
        else:
            ctx.ok(f'{heads}: {name} of {i}')
    sets = [s for k in (1, 2, 3) for s in itertools.permutations(range(n + 1), k)]
    if n > 3:
        sets = [s for s in sets if len(s) < 3 or s[0] < s[1]]
    if n > 4:
        sets = [s for s in sets if len(s) < 3]
    fn = j.p.functions['udapi.core.node.find_minimal_common_treelet']
    got = j.ask('treelets', f'heads {heads}', fn, 'treelets', [w, ('tup', tuple(('tup', tuple(map(C, s))) for s in sets))], st)
    for s, value in zip(sets, got[0] if got else ()):
        ctx.count('answers compared')
        want = spec.treelet(s)
        if value != want:
            ctx.find('treelets', fn.module.path, fn.lineno, fn.qual, f'heads {heads}: the treelet of {s} has the top {value[0]} and adds {value[1]} '
                     f'instead of {want[0]} and {want[1]}')
        else:
            ctx.ok(f'{heads}: treelet of {s}')


def texts(ctx, j, deep):
    """Texts of trees with multiword tokens."""
    fn = j.node.find_method('compute_text')
    for n in range(1, 5 if deep else 4):
        forms = tuple(hole(i) for i in range(1, n + 1))
        base = j.call(f'{n} words', 'words', [('tup', tuple(C(f) for f in forms))], None)
        if base is None or is_raise(base[0]):
            continue
        ranges = [(a, b) for a in range(1, n + 1) for b in range(a, n + 1) if b > a or n < 3]
        shapes = trees(n) if n < 4 else [(0, 1, 1, 2), (2, 0, 4, 2), (3, 1, 0, 1)]
        for k in range(3):
            for rs in itertools.combinations(ranges, k):
                if any(x[1] >= y[0] for x, y in zip(rs, rs[1:])):
                    continue
                tokens = [(a, b, hole(50 + a)) for a, b in rs]
                places = [('t', a) for a, _ in rs] + [('w', i) for i in range(1, n + 1)]
                for ns in itertools.product((0, 1), repeat=len(places)) if n < 4 else [(0,) * len(places), (1,) * len(places)]:
                    nospace = {p for p, x in zip(places, ns) if x}
                    for heads in shapes if n < 3 or deep else shapes[sum(ns) % 3::3]:
                        text(ctx, j, fn, base, heads, forms, tokens, nospace)


def text(ctx, j, fn, base, heads, forms, tokens, nospace):
    h = hung(j, base, heads)
    if h is None:
        return
    spec, st = h
    ctx.count('texts')
    label = f'heads {heads}, tokens {[t[:2] for t in tokens]}, no space after {sorted(nospace)}'
    got = j.ask('texts', label, fn, 'with_tokens', [base[0], ('tup', tuple(('tup', (C(a), C(b), C(f))) for a, b, f in tokens)),
                                                   ('tup', tuple(('tup', (C(x), C(y))) for x, y in sorted(nospace)))], st)
    if got is None:
        return
    whole, toks = spec.text(0, forms, tokens, nospace)
    want = [whole, spec.text(0, forms, tokens, nospace, False)[0], tuple(t[0] for t in toks),
            tuple(spec.text(i, forms, tokens, nospace)[0] for i in range(1, len(heads) + 1)), whole, tuple(t[1] for t in toks),
            tuple(t[2] for t in toks), tuple(f'{a}-{b}' for a, b, _ in tokens), 'x']
    names = ('compute_text()', 'compute_text(use_mwt=False)', 'forms of token_descendants', 'compute_text() of words', 'get_sentence()',
             'words of token_descendants', 'no_space_after', 'ord_range', 'get_sentence() with a text')
    for name, a, b in zip(names, got[0], want):
        ctx.count('answers compared')
        if a != b:
            ctx.find('texts', fn.module.path, fn.lineno, fn.qual, f'{label}: {name} is {show(a)} instead of {show(b)}')
        else:
            ctx.ok(f'{label}: {name}')


def show(v):
    return ''.join(f'⟨{ord(c) - 0xE000}⟩' if 0xE000 <= ord(c) < 0xF8FF else c for c in (v if isinstance(v, str) else repr(v)
                   if not isinstance(v, (tuple, list)) else '(' + ', '.join(show(x) for x in v) + ')'))
