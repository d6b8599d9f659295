"""C20: projectivization makes every tree projective and moves only what it has to."""
from ..absint import C, is_raise
from ..text import client, hole
from .c09 import CLIENT as BASE, Judge, Spec, hung, tree, trees

EXPLANATION = ('Abstract interpretation of client programs that run transform.Proj, transform.Deproj and transform.Flatten on every tree of up to '
               'five words (word numbers and heads constant, forms and relations opaque); the resulting heads, relations and marks '
               'are compared with the definition of projectivity and with the heads before.')
TECHNIQUE = 'abstract interpretation with constant tree shapes and opaque relations, compared with the definition of projectivity'

CLIENT = BASE + '''
from udapi.block.transform.proj import Proj
from udapi.block.transform.deproj import Deproj
from udapi.block.transform.flatten import Flatten


def heads(w):
    return tuple([n.parent.ord for n in w[1]])


def proj(w, **kwargs):
    Proj(**kwargs).process_tree(w[0])
    return [heads(w), tuple([n.misc['pproj'] for n in w[1]]), tuple([n.deprel for n in w[1]]), ords(w[0].descendants)]


def deproj(w, **kwargs):
    block = Deproj(**kwargs)
    for n in w[0].descendants:
        block.process_node(n)
    return [heads(w), tuple([n.deprel for n in w[1]]), ords(w[0].descendants)]


def flatten(w, **kwargs):
    Flatten(**kwargs).process_tree(w[0])
    return [heads(w), tuple([n.deprel for n in w[1]]), ords(w[0].descendants)]
'''


def reset(ctx):
    j = Judge(ctx)
    client(ctx.p, CLIENT)
    return j


def run(ctx):
    ctx.rule('projective', 'after transform.Proj the tree has no non-projective edge')
    ctx.rule('lifted', 'a word is attached to its former head or to an ancestor of it; a single non-projective word is lifted as little as needed')
    ctx.rule('marked', 'exactly the words that were moved are marked, with the relation of their former head')
    ctx.rule('deproj', 'transform.Deproj moves only marked words, restores a tree with one lifted word and the relations')
    ctx.rule('flat', 'transform.Flatten attaches all words to the root (or to the first word)')
    deep = ctx.tier == 'thorough'
    j = reset(ctx)
    for n in range(6):
        forms = ('tup', tuple(C(hole(i)) for i in range(1, n + 1)))
        for kind in range(3):
            # unique relations; relations with subtypes; equal relations
            rels = [hole(100 + i * (kind < 2)) + (':' + hole(200 + i) if kind == 1 and i % 2 else '') for i in range(1, n + 1)]
            base = j.call(f'{n} words', 'words', [forms] + [C(r) for r in rels], None)
            if base is None or is_raise(base[0]):
                ctx.undet(f'a tree of {n} words cannot be built')
                continue
            for k, heads in enumerate(trees(n)):
                bad = sum(Spec(heads).nonprojective(i) for i in range(1, n + 1))
                if n < 4 or deep or n == 4 and (bad or k % 5 == kind) or n == 5 and bad and k % 3 == kind:
                    one(ctx, j, base, heads, rels, kind, deep)
    ctx.floor('trees', 100)


def one(ctx, j, base, heads, rels, kind, deep):
    h = hung(j, base, heads)
    if h is None:
        ctx.undet(f'heads {heads}: the tree cannot be built')
        return
    spec, st = h
    ctx.count('trees')
    n = len(heads)
    first = j.p.classes['udapi.block.transform.proj.Proj'].find_method('process_tree')
    for order in ('deepest', 'shortest'):
        for label in ('misc', 'deprel'):
            if n > 4 and not deep and (order == 'deepest') == (label == 'misc') and sum(heads) % 2:
                continue
            name = f'heads {heads}, lifting_order={order}, label={label}'
            got = j.ask('projective', name, first, 'proj', [base[0]], st, {'lifting_order': order, 'label': label})
            if got is None:
                continue
            (after, marks, deprels, ords), s = got
            moved = judge(ctx, first, name, spec, heads, after, marks, deprels, ords, rels, label)
            back(ctx, j, name, base, s, spec, heads, after, moved, rels, label)
    if n < 4 and kind == 0:
        fn = j.p.classes['udapi.block.transform.flatten.Flatten'].find_method('process_tree')
        for oneroot in (False, True):
            got = j.ask('flat', f'heads {heads}, oneroot={oneroot}', fn, 'flatten', [base[0]], st, {'oneroot': oneroot})
            if got is None:
                continue
            want = [((0,) + (1 if oneroot else 0,) * (n - 1))[:n], (('root',) + ('dep' if oneroot else 'root',) * (n - 1))[:n], tuple(range(1, n + 1))]
            ctx.check('flat', got[0] == want, fn.module.path, fn.lineno, fn.qual, f'heads {heads}, oneroot={oneroot}: heads and relations '
                      f'become {got[0][:2]} instead of {want[:2]}')


def judge(ctx, fn, name, spec, heads, after, marks, deprels, ords, rels, label):
    """Check the result of Proj; the words that were moved."""
    n = len(heads)
    new = Spec(after)

    def verdict(rule, ok, msg):
        ctx.check(rule, ok, fn.module.path, fn.lineno, fn.qual, f'{name}: {msg}')
    verdict('projective', not any(new.nonprojective(i) for i in range(1, n + 1)), f'the result {after} is not projective')
    verdict('lifted', ords == tuple(range(1, n + 1)), 'the word order is changed')
    moved = [i for i in range(1, n + 1) if after[i - 1] != heads[i - 1]]
    verdict('lifted', all(after[i - 1] in spec.up[heads[i - 1]] for i in moved), f'the heads become {after}: a word is attached elsewhere than above its head')
    bad = [i for i in range(1, n + 1) if spec.nonprojective(i)]
    verdict('lifted', bad or not moved, f'a projective tree is changed to {after}')
    if len(bad) == 1:
        i = bad[0]
        want = next(a for a in spec.up[heads[i - 1]] if not Spec(heads[:i - 1] + (a,) + heads[i:]).nonprojective(i))
        lifted = heads[:i - 1] + (want,) + heads[i:]
        if not any(Spec(lifted).nonprojective(k) for k in range(1, n + 1)):
            verdict('lifted', after == lifted, f'the heads become {after} although {lifted} is enough')
    want_marks = tuple(rels[heads[i - 1] - 1].split(':')[0] if i in moved and label == 'misc' else '' for i in range(1, n + 1))
    verdict('marked', marks == want_marks, 'other words than those that were moved are marked in MISC, or with another relation')
    want_rels = tuple((r.split(':') + [''])[0] + ':' + (r.split(':') + [''])[1] + '+' + rels[heads[i - 1] - 1].split(':')[0]
                      if i in moved and label == 'deprel' else r for i, r in enumerate(rels, 1))
    verdict('marked', deprels == want_rels, 'relations are not as expected' if label == 'deprel' else 'relations are changed')
    return moved


def back(ctx, j, name, base, s, spec, heads, after, moved, rels, label):
    fn = j.p.classes['udapi.block.transform.deproj.Deproj'].find_method('process_node')
    got = j.ask('deproj', name, fn, 'deproj', [base[0]], s, {'label': label})
    if got is None:
        return
    res, deprels, ords = got[0]
    n = len(heads)

    def verdict(ok, msg):
        ctx.check('deproj', ok, fn.module.path, fn.lineno, fn.qual, f'{name}: {msg}')
    verdict(ords == tuple(range(1, n + 1)), 'the word order is changed by Deproj')
    verdict(all(res[i - 1] == after[i - 1] for i in range(1, n + 1) if i not in moved), f'Deproj moves words that are not marked: {res}')
    if tree(res):
        rel = {i: rels[i - 1].split(':')[0] if i else None for i in range(n + 1)}
        verdict(all(res[i - 1] == after[i - 1] or rel[res[i - 1]] == rel[heads[i - 1]] and
                    (len(moved) > 1 or after[i - 1] in Spec(after).up[res[i - 1]]) for i in moved),
                f'Deproj attaches a word to a head with another relation: {res}')
    else:
        verdict(False, f'the result of Deproj is no tree: {res}')
    verdict(len(moved) > 1 or len(set(rels)) < n or res == heads, f'Deproj does not restore the heads: {res}')
    verdict(list(deprels) == rels, 'Deproj does not restore the relations')
