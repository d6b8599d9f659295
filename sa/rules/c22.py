"""C22: multiword tokens, their words and their tree refer to each other consistently."""
import ast

from ..absint import NONE, O, Obj, S, gap, is_gap
from ..project import own_nodes
from ..tree import AT, MWT_Q, NODE, NODE_Q, ROOT_Q, SHAPE, TWO, Forest, add_list, in_tree, items_of
from .. import worlds as W

EXPLANATION = ('Abstract interpretation of every public operation that creates or removes multiword tokens or moves and '
               'removes their words, on abstract trees with tracked words and tokens; on every successful path the links '
               'word-token, token-words and token-tree are compared. Code outside the data model that writes these links '
               'directly must write both directions.')
TECHNIQUE = 'abstract interpretation with heap summarisation (link invariants on normal exits); paired-update check'


def forest(p, words, others=('S',), shape=TWO, gaps=True):
    f = Forest(p, shape, gaps=gaps, empties=False)
    st = f.st
    lists = {r: [gap('mwts:' + r, O('wt' + r))] if gaps else [] for r in f.roots}
    for name, ws in (('T', words), ('U', others)):
        if not ws:
            continue
        root = f.root_of[ws[0]]
        st.heap[name] = Obj('inst', cls=MWT_Q, attrs={'words': O(name + 'W'), 'form': S(name + '.form', 'str'), '_misc': NONE,
                                                      'root': O(root)})
        add_list(st, name + 'W', [O(w) for w in ws], sorted=True)
        for w in ws:
            st.heap[w].attrs['_mwt'] = O(name)
        lists[root].append(O(name))
    for r in f.roots:
        st.heap['wt' + r] = Obj('inst', cls=MWT_Q, weak=True, attrs={'words': O('wtW' + r), 'form': S('wt.form', 'str'),
                                                                    '_misc': NONE, 'root': O(r)})
        inner = [gap('mww:' + r, O('wd' + r))] if gaps else []
        st.heap['wtW' + r] = Obj('list', items=tuple(inner), weak=True)
        add_list(st, 'MW' + r, lists[r])
        if gaps:
            for w in ['wd' + r] + ['w' + n for n in f.nodes + f.roots if f.root_of[n] == r]:
                st.heap[w].attrs['_mwt'] = NONE
    f.pre = st.fork()
    return f


def runs(p):
    rc, nc, mc = p.classes[ROOT_Q], p.classes[NODE_Q], p.classes[MWT_Q]
    m = rc.find_method('create_multiword_token')
    for ws in (('Y', 'V'), ('A', 'Y'), ('A', 'X'), ('X', 'S'), ('A', 'X', 'Y'), ('S',), ('Y', 'S', 'V'), ('V', 'A', 'Y')):
        f = forest(p, ('A', 'X'))
        add_list(f.st, 'ARG', [O(w) for w in ws])
        yield W.run(p, f'create_multiword_token({len(ws)} words, {sum(w in ("A", "X", "S") for w in ws)} in other tokens)', m, f,
                    lambda it, st: it.call_func(m, [O('R'), O('ARG'), S('form', 'str')], {}, st, AT))
    r = mc.find_method('remove')
    for ws in (('A', 'X'), ('A',), ('A', 'X', 'Y')):
        f = forest(p, ws)
        run = W.run(p, f'mwt.remove() with {len(ws)} words', r, f, lambda it, st: it.call_func(r, [O('T')], {}, st, AT))
        run.gone = {'T'}
        yield run
    s = rc.find_method('steal_nodes')
    for ws in (('A', 'X'), ('P', 'S')):
        for moved in (['A'], ['A', 'X'], ['P', 'A', 'S'], ['Y'], ['P', 'S'], ['P', 'A', 'S', 'X', 'Y', 'V', 'N', 'M']):
            f = forest(p, ws, ('N',), gaps=False)
            add_list(f.st, 'ARG', [O(n) for n in moved])
            yield W.run(p, f'steal_nodes({moved}) with a token over {list(ws)}', s, f,
                        lambda it, st: it.call_func(s, [O('Q'), O('ARG')], {}, st, AT))
    f = forest(p, ('A', 'X'), ('Z',), gaps=False)
    add_list(f.st, 'ARG', [O('A'), O('X')])
    yield W.run(p, 'steal_nodes into a tree with a token', s, f, lambda it, st: it.call_func(s, [O('Q'), O('ARG')], {}, st, AT))
    fl = rc.find_method('flatten')
    f = forest(p, ('A', 'X'))
    yield W.run(p, 'flatten()', fl, f, lambda it, st: it.call_func(fl, [O('R')], {}, st, AT))
    ps = nc.find_setter('parent')
    f = forest(p, ('A', 'X'))
    yield W.run(p, 'word.parent = node', ps, f, lambda it, st: it.setattr(O('A'), 'parent', O('N'), st, NODE))
    h = nc.find_method('remove')
    for who, opt in (('A', NONE), ('V', NONE)):
        f = forest(p, ('A', 'V'), gaps=False)
        run = W.run(p, 'word.remove()', h, f, lambda it, st, who=who: it.call_func(h, [O(who)], {}, st, AT))
        run.dead = {'A', 'X', 'Y', 'V'} if who == 'A' else {'V'}
        yield run


def problems(st, r):
    heap = st.heap
    gone, dead = getattr(r, 'gone', set()), getattr(r, 'dead', set())
    tokens = [o for o, x in heap.items() if x.kind == 'inst' and x.cls == MWT_Q and not x.weak]
    nodes = [o for o, x in heap.items() if x.kind == 'inst' and x.cls == NODE_Q and not x.weak]
    roots = r.forest.roots
    listed = {}
    for q in roots:
        ms = items_of(st, heap[q].attrs.get('_mwts'))
        if ms is None:
            yield '?', f'tokens of {q} unknown'
            return
        for x in ms:
            if x[0] == 'o':
                listed.setdefault(x[1], []).append(q)
    for t in tokens:
        ws = items_of(st, heap[t].attrs.get('words'))
        if ws is None:
            yield '?', 'words unknown'
            continue
        words = [x[1] for x in ws if x[0] == 'o']
        where = listed.get(t, [])
        if t in gone and where:
            yield 'listed', 'the removed token is still listed in a tree'
        if len(where) > 1:
            yield 'listed', 'a token is listed more than once'
        if t not in gone and t not in r.forest.pre.heap and not where:
            yield 'listed', 'the new token is not listed in its tree'
        alive = len(where) == 1
        for n in nodes:
            back = heap[n].attrs.get('_mwt')
            if back == O(t) and not alive:
                yield 'word-link', 'a word refers to a token that is in no tree'
            elif alive and n in dead and n in words:
                yield 'dead-word', 'a node that was removed is still a word of a token of the tree'
            elif alive and (back == O(t)) != (n in words) and not any(is_gap(x) for x in ws):
                yield 'word-link', 'a token lists a word that does not refer to it' if n in words else \
                    'a word refers to a token that does not list it'
            elif alive and n in words and heap[n].attrs.get('_root') != O(where[0]):
                yield 'tree', 'a token is listed in a tree that its words do not belong to'
        if alive and heap[t].attrs.get('root') != O(where[0]):
            yield 'tree', 'a token does not know the tree it is listed in'


def direct(ctx):
    """Code outside the data model that writes one of the links."""
    for f in sorted(ctx.p.functions.values(), key=lambda f: f.qual):
        if f.cls is not None and f.cls.qual in (MWT_Q, ROOT_Q, NODE_Q):
            continue
        links, lists = [], []
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == '_mwt':
                links.append(n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('append', 'remove', 'insert', 'extend', 'pop', 'clear') and \
                    isinstance(n.func.value, ast.Attribute):
                if n.func.value.attr in ('_mwts', 'multiword_tokens') or n.func.value.attr == 'words' and mwt_words(ctx, f, n.func.value):
                    lists.append(n)
        if not links and not lists:
            continue
        ctx.count('functions writing links directly')
        if bool(links) != bool(lists):
            n = (links or lists)[0]
            ctx.find('unpaired', f.module.path, n.lineno, f.qual,
                     f'{ast.unparse(n)[:60]} changes one direction of the link between words and tokens only')
        else:
            ctx.ok()


def mwt_words(ctx, f, e):
    return any(q == MWT_Q for q in ctx.types.classes_of(f.module, f, e.value))


def run(ctx):
    from ..types import Types
    ctx.types = Types(ctx.p)
    ctx.rule('word-link', 'a word refers to a token exactly if that token lists it and is in the tree')
    ctx.rule('listed', 'a token is listed exactly once in its tree, and not after it was removed')
    ctx.rule('tree', 'a token, its words and the tree listing it belong together')
    ctx.rule('dead-word', 'a removed node is no word of a token')
    ctx.rule('unpaired', 'code outside the data model that writes one direction of the link writes the other one too')
    for r in runs(ctx.p):
        ctx.count('operations interpreted')
        if r.results is None:
            ctx.undet(f'{r.label}: {r.why}')
            continue
        for fl, st in r.results:
            if fl is not None:
                ctx.count('rejected')
                continue
            if st.tainted:
                ctx.undet(f'{r.label}: {st.tainted[0]}')
                continue
            ctx.count('successful paths')
            bad = list(problems(st, r))
            hard = [b for b in bad if b[0] != '?']
            if hard:
                for rule, msg in hard[:2]:
                    ctx.find(rule, r.func.module.path, r.func.lineno, r.func.qual, f'after {r.label}: {msg}')
            elif bad:
                ctx.undet(f'{r.label}: {bad[0][1]}')
            else:
                ctx.ok(f'{r.label}: links agree')
    direct(ctx)
    ctx.floor('operations interpreted', 20)
    ctx.floor('successful paths', 15)
