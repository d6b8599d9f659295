"""C02: enhanced dependencies keep their targets and empty nodes keep their places."""
from .. import absint
from ..absint import C, NONE, O, Obj, S, Undetermined, is_c, is_gap
from ..exact import Exact
from ..tree import AT, EMPTY_Q, Forest, NODE, NODE_Q, add_list, items_of, operations

EXPLANATION = ('Abstract interpretation, with word positions and numbers of empty nodes folded as constants and all other '
               'contents symbolic, of every operation that removes, moves or transfers words or creates or removes empty nodes, '
               'on trees with enhanced dependencies between words, empty nodes and the root, both while they are still stored as '
               'a string and after they were read. After each path every remaining dependency is compared with its target '
               'before the operation, and the number of each empty node with the place it had. Reading and assigning the '
               'string view and the list view in every order is interpreted as well.')
TECHNIQUE = 'abstract interpretation with constant positions and symbolic contents; comparison with a ghost map of dependencies'


def number(st, v):
    """(word, index) of a number, or None."""
    if v is None:
        return None
    if is_c(v) and v[1] in ('int', 'float'):
        a, _, b = repr(v[2]).partition('.')
        return (int(a), int(b or 0)) if b.isdigit() or not b else None
    if v[0] == 'o' and v[1] in st.heap and st.heap[v[1]].kind == 'inst':
        k = st.heap[v[1]].attrs.get('_key')
        if k is not None and k[0] == 'tup' and all(is_c(x) for x in k[1]):
            return tuple(x[2] for x in k[1])
    return None


def forest_class(numbers, raw):
    class Small(Forest):
        empties = tuple(numbers['R'])

        def __init__(self, p, shape, gaps=True, empties=True, loose=()):
            super().__init__(p, shape, gaps=False, empties=False, loose=loose)
            st = self.st
            self.words = {}
            for r in self.roots:
                ds = st.heap['DS' + r].items
                self.words[r] = [x[1] for x in ds]
                for i, x in enumerate(ds, 1):
                    st.heap[x[1]].attrs['_ord'] = C(i)
                es = []
                for e, o in numbers.get(r, {}).items():
                    self.inst(e, EMPTY_Q, r, None)
                    self.root_of[e] = r
                    add_list(st, 'L' + e, ())
                    if isinstance(o, tuple):
                        st.heap['OT' + e] = Obj('inst', cls='udapi.core.node.OrdTuple', attrs={'_key': ('tup', (C(o[0]), C(o[1])))})
                        st.heap[e].attrs['_ord'] = O('OT' + e)
                    else:
                        st.heap[e].attrs['_ord'] = C(o)
                    es.append(e)
                st.heap['EN' + r].items = tuple(O(e) for e in es)
            self.deps = {}
            es = list(numbers['R'])
            self.link('A', 'X', es[1])
            self.link('V', 'A')
            self.link('S', es[2], 'R', 'V')
            self.link(es[2], 'A', es[-1])
            self.link(es[0], 'M')
            self.link('M', 'R', 'P')
            if 'Q' in self.roots:
                self.link('Z', list(numbers['Q'])[0], 'Q')
            self.pre = st.fork()

        def link(self, n, *targets):
            st = self.st
            self.deps[n] = [(t, f'd{i}:{n}') for i, t in enumerate(targets)]
            if raw:
                nums = [number(st, st.heap[t].attrs['_ord']) for t in targets]
                st.heap[n].attrs['_raw_deps'] = C('|'.join(f'{a}.{b}:{d}' if b else f'{a}:{d}'
                                                           for (a, b), (_, d) in zip(nums, self.deps[n])))
                return
            items = []
            for i, (t, d) in enumerate(self.deps[n]):
                st.heap[f'D{n}{i}'] = Obj('dict', items=((C('parent'), O(t)), (C('deprel'), C(d))))
                items.append(O(f'D{n}{i}'))
            add_list(st, 'DL' + n, items)
            st.heap[n].attrs['_deps'] = O('DL' + n)

    return Small


def members(st, r, attr):
    items = items_of(st, st.heap[r].attrs.get(attr))
    if items is None or any(is_gap(x) or x[0] != 'o' for x in items):
        return None
    return [x[1] for x in items]


def read_deps(it, st, n):
    """[(target, relation)] of a node after reading its enhanced dependencies, 'error', or None."""
    try:
        res = it.getattr(O(n), 'deps', st, AT)
    except Undetermined:
        return None
    if len(res) != 1:
        return None
    v, s = res[0]
    if v[0] == '!raise':
        return 'error'
    items = items_of(s, v)
    if items is None:
        return None
    out = []
    for x in items:
        d = s.heap[x[1]] if not is_gap(x) and x[0] == 'o' and x[1] in s.heap else None
        if d is None or d.kind != 'dict' or any(is_gap(kv) for kv in d.items):
            return None
        d = {k[2]: v for k, v in d.items if is_c(k)}
        par, rel = d.get('parent'), d.get('deprel')
        if par is None or par[0] != 'o' or rel is None or not is_c(rel):
            return None
        out.append((par[1], rel[2]))
    return out


def subtree(fo, n):
    out = {n}
    while True:
        more = {k for k, par in fo.parent.items() if par in out} - out
        if not more:
            return out
        out |= more


def judge(ctx, r, st):
    """None or a message; 'undetermined: ...' when the state is not known."""
    fo = r.forest
    words = {q: members(st, q, '_descendants') for q in fo.roots}
    empties = {q: members(st, q, 'empty_nodes') for q in fo.roots}
    if None in words.values() or None in empties.values():
        return 'rule', 'undetermined: nodes of the tree unknown'
    home = {x: q for q in fo.roots for x in words[q] + empties[q] + [q]}
    # ----------------------------------------------------- dependencies
    moved_root = {}
    if '.steal_nodes(' in r.label:
        moved_root = {'R': 'Q'}
    for n in home:
        if n in fo.roots:
            continue
        ctx.count('dependencies compared')
        got = read_deps(r.it, st, n)
        if got is None:
            return 'rule', f'undetermined: dependencies of {n} unknown'
        if got == 'error':
            return 'target', f'the enhanced dependencies of {n} cannot be read any more'
        want = []
        for t, d in fo.deps.get(n, []):
            if t in fo.roots and home[n] != fo.root_of[n]:
                t = moved_root.get(t, t)
            if home.get(t) == home[n]:
                want.append((t, d))
        if n not in fo.deps and n not in fo.nodes and n not in fo.root_of:
            continue
        if got != want:
            miss = [x for x in want if x not in got]
            extra = [x for x in got if x not in want]
            what = f'its dependency on {miss[0][0]} is gone' if miss and not extra else \
                f'it depends on {extra[0][0]} instead of {miss[0][0]}' if miss and extra else \
                f'it depends on {extra[0][0]}, which is not in its tree' if extra else 'the order of its dependencies changed'
            return 'target', f'{n}: {what}'
    # ----------------------------------------------------- empty nodes
    for q in fo.roots:
        nums = []
        for e in empties[q]:
            x = number(st, st.heap[e].attrs.get('_ord'))
            if x is None:
                return 'rule', f'undetermined: number of {e} unknown'
            if x[1] == 0:
                return 'number', f'the empty node {e} has the number of a word'
            nums.append(x)
            if st.heap[e].attrs.get('_root') != O(q):
                return 'number', f'the empty node {e} is listed in a tree it does not know'
        for a, b in zip(nums, nums[1:]):
            if not a < b:
                return 'number', f'two empty nodes have the numbers {a[0]}.{a[1]} and {b[0]}.{b[1]} in this order'
        if len(set(empties[q])) != len(empties[q]):
            return 'number', 'an empty node is listed twice'
    old = [e for q in fo.roots for e in members(fo.pre, q, 'empty_nodes')]
    for q in fo.roots:
        mine = [e for e in old if e in empties[q]]
        for src in fo.roots:
            if [e for e in empties[q] if e in mine and fo.root_of[e] == src] != [e for e in mine if fo.root_of[e] == src]:
                return 'place', 'the order of empty nodes changed'
        for e in mine:
            src = fo.root_of[e]
            # the word it followed, disregarding words that left or changed places
            moving = set()
            if '.shift_' in r.label and words[q] != fo.words[q]:
                moving = {r.args[0]} if r.args[2] else subtree(fo, r.args[0])
            k = number(fo.pre, fo.pre.heap[e].attrs['_ord'])[0]
            want = None
            for w in reversed(fo.words[src][:k]):
                if w in words[q] and w not in moving:
                    want = words[q].index(w) + 1
                    break
            if want is None:
                want = 0 if src == q else len(fo.words[q])
            got = number(st, st.heap[e].attrs['_ord'])[0]
            ctx.count('empty nodes compared')
            if got != want:
                return 'place', f'the empty node {e} follows word {got} instead of word {want}'
        for e in empties[q]:
            if e in old:
                continue
            who, after = r.args
            at = fo.words['R'].index(who) + 1 if who in fo.words['R'] else 0
            got = number(st, st.heap[e].attrs['_ord'])[0]
            if got != (at if after else at - 1):
                return 'place', f'the new empty node follows word {got} instead of word {at if after else at - 1}'
    if r.label.endswith('remove()') and r.args[0] in home:
        return 'place', 'a removed empty node is still in the tree'
    return None


VARIANTS = ({'R': {'E1': 0.1, 'E2': 3.1, 'E3': 3.2, 'E4': 5.1}, 'Q': {'EQ': 1.1}},
            {'R': {'E1': 3.8, 'E2': 3.9, 'E3': (3, 10), 'E4': (3, 11), 'E5': 4.9, 'E6': (4, 10)}, 'Q': {'EQ': (1, 10)}})


def views(ctx):
    """The string and the list of enhanced dependencies after each sequence of reads and assignments."""
    numbers = VARIANTS[0]
    p = ctx.p
    setter = p.classes[NODE_Q].find_setter('raw_deps')
    where = setter if setter is not None else p.classes[NODE_Q].find_method('deps')

    def new_list(fo, st):
        st.heap['ND'] = Obj('dict', items=((C('parent'), O('P')), (C('deprel'), C('new'))))
        return add_list(st, 'NL', [O('ND')])

    for raw in (True, False):
        for n in ('A', 'S', 'E3', 'Y'):
            for ops in ((), ('read',), ('raw',), ('read', 'raw'), ('setraw',), ('read', 'setraw'), ('setdeps',), ('raw', 'setdeps'),
                        ('setdeps', 'setraw'), ('setraw', 'setdeps'), ('setraw', 'read', 'raw'), ('read', 'append'),
                        ('raw', 'read', 'append'), ('setempty',), ('read', 'setempty')):
                fo = forest_class(numbers, raw)(p, {'R': {'P': 'R', 'A': 'P', 'S': 'P', 'X': 'A', 'Y': 'X', 'V': 'Y', 'N': 'R',
                                                          'M': 'N'}})
                it = Exact(p, budget=300000)
                ghost = list(fo.deps.get(n, []))
                label = f'{n}: {", ".join(ops) or "nothing"} ({"string" if raw else "list"})'
                try:
                    sts = [fo.start()]
                    for op in ops + ('read', 'raw', 'read'):
                        nxt = []
                        for st in sts:
                            if op in ('read', 'append'):
                                res = it.getattr(O(n), 'deps', st, AT)
                            elif op == 'raw':
                                res = it.getattr(O(n), 'raw_deps', st, AT)
                            elif op == 'setraw':
                                res = it.setattr(O(n), 'raw_deps', C('1:P|3.2:E3:x'), st, NODE)
                                ghost = [('P', 'P'), ('E3', 'E3:x')]
                            elif op == 'setempty':
                                res = it.setattr(O(n), 'raw_deps', C('_'), st, NODE)
                                ghost = []
                            else:
                                st = st.fork()
                                res = it.setattr(O(n), 'deps', new_list(fo, st), st, NODE)
                                ghost = [('P', 'new')]
                            for v, s in res:
                                if v is not None and v[0] in ('!raise', 'raise'):
                                    ctx.find('views-agree', where.module.path, where.lineno, where.qual,
                                             f'{label}: {op} fails')
                                    continue
                                if op == 'append':
                                    s = s.fork()
                                    s.heap['AD'] = Obj('dict', items=((C('parent'), O('M')), (C('deprel'), C('app'))))
                                    w = s.w(v[1])
                                    w.items = w.items + (O('AD'),)
                                nxt.append(s)
                        if op == 'append':
                            ghost = ghost + [('M', 'app')]
                        sts = nxt
                    for st in sts:
                        ctx.count('view sequences')
                        got = read_deps(it, st, n)
                        rawv = it.getattr(O(n), 'raw_deps', st, AT)
                        text = '|'.join('{}:{}'.format('.'.join(map(str, [x for x in number(st, st.heap[t].attrs['_ord']) if x]))
                                                       or '0', d) for t, d in ghost) or '_'
                        if got is None or len(rawv) != 1:
                            ctx.undet(label)
                        elif got != ghost:
                            ctx.find('views-agree', where.module.path, where.lineno, where.qual,
                                     f'{label}: the list shows other dependencies than were set')
                        elif not is_c(rawv[0][0]):
                            ctx.undet(label)
                        elif rawv[0][0][2] != text:
                            ctx.find('views-agree', where.module.path, where.lineno, where.qual,
                                     f'{label}: the string shows {rawv[0][0][2]} instead of {text}')
                        else:
                            ctx.ok()
                except Undetermined as e:
                    ctx.undet(f'{label}: {e}')


def run(ctx):
    ctx.rule('target', 'an enhanced dependency refers to the same node after any operation, or is gone with that node')
    ctx.rule('number', 'empty nodes have distinct numbers between words, in the order in which they are listed')
    ctx.rule('place', 'an empty node stays after the word it followed (or the one before, when that word leaves)')
    ctx.rule('views-agree', 'string and list of enhanced dependencies show the same')
    absint.ALLOC_LIMIT[0] = 400
    for numbers in VARIANTS:
        for raw in (False, True):
            fc = forest_class(numbers, raw)
            for r in operations(ctx.p, ('remove', 'steal', 'shift', 'empty'), forest=fc,
                                interp=lambda p, hook=None, budget=0: Exact(p, hook=hook, budget=100000),
                                every=ctx.tier == 'thorough' or not raw and numbers is VARIANTS[0]):
                ctx.count('operations interpreted')
                if r.results is None:
                    ctx.undet(f'{r.label}: {r.why}')
                    continue
                for fl, st in r.results:
                    if fl is not None:
                        continue
                    if st.tainted:
                        ctx.undet(f'{r.label}: {st.tainted[0]}')
                        continue
                    bad = judge(ctx, r, st)
                    if bad is None:
                        ctx.ok(f'{r.label}: dependencies and empty nodes as before')
                    elif bad[1].startswith('undetermined'):
                        ctx.undet(f'{r.label}: {bad[1]}')
                    else:
                        ctx.find(bad[0], r.func.module.path, r.func.lineno, r.func.qual, f'after {r.label}: {bad[1]}')
    views(ctx)
    ctx.floor('operations interpreted', 150)
    ctx.floor('dependencies compared', 500)
    ctx.floor('view sequences', 60)
