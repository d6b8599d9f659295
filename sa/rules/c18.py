"""C18: mentions, their words, heads and entities refer to each other consistently."""
import ast

from ..absint import O, is_gap
from ..flow import Flow
from ..project import own_nodes
from ..tree import AT, NODE_Q, items_of
from .. import worlds as W
from .c04 import edits

EXPLANATION = ('Abstract interpretation of every public operation that creates, changes or removes mentions, on an abstract '
               'document with tracked words, mentions and entities and summarised others; on every successful path the '
               'links word-mention, mention-entity and mention-head are compared in both directions. Code that links words and '
               'mentions by hand (the loader) is checked by a paired-update typestate.')
TECHNIQUE = 'abstract interpretation with heap summarisation (link invariants on normal exits); paired-update typestate'


def more(p):
    cls = p.classes

    def meth(c, m):
        return cls[c].find_method(m) if c in cls else None
    m = meth(W.MENTION_Q, 'remove')
    for words in (('A', 'X'), ('A',), ('A', 'X', 'Y')):
        f = W.world(p, words)
        r = W.run(p, f'mention.remove() with {len(words)} words', m, f, lambda it, st: it.call_func(m, [O('K')], {}, st, AT))
        r.gone = {'K'}
        yield r
    g = meth(NODE_Q, 'create_coref_entity')
    f = W.world(p)
    yield W.run(p, 'node.create_coref_entity()', g, f, lambda it, st: it.call_func(g, [O('N')], {}, st, AT))
    h = meth(NODE_Q, 'remove')
    for who in ('A', 'V'):
        f = W.world(p, ('A', 'V'))
        r = W.run(p, f'{who}.remove() of a word of a mention', h, f, lambda it, st, who=who: it.call_func(h, [O(who)], {}, st, AT))
        r.dead = {'A', 'X', 'Y', 'V'} if who == 'A' else {'V'}
        yield r


def real(items):
    return [x for x in items if not is_gap(x)]


def problems(st, r, p):
    """Broken links among the tracked objects."""
    heap = st.heap
    gone, dead = getattr(r, 'gone', set()), getattr(r, 'dead', set())
    mentions = [o for o, x in heap.items() if x.kind == 'inst' and x.cls == W.MENTION_Q and not x.weak]
    entities = [o for o, x in heap.items() if x.kind == 'inst' and x.cls == W.ENTITY_Q and not x.weak]
    nodes = [o for o, x in heap.items() if x.kind == 'inst' and x.cls == NODE_Q and not x.weak]
    for m in mentions:
        obj = heap[m]
        ws = items_of(st, obj.attrs.get('_words'))
        if ws is None:
            yield '?', 'words unknown'
            continue
        words = [x[1] for x in real(ws) if x[0] == 'o']
        vague = any(is_gap(x) or x[0] != 'o' for x in ws)
        if m in gone:
            words = []
        elif len(set(words)) != len(words):
            yield 'word-twice', 'a word occurs twice among the words of the mention'
        for n in nodes:
            if n in dead and n in words:
                yield 'dead-word', 'a node that was removed is still a word of the mention'
                continue
            ms = items_of(st, heap[n].attrs.get('_mentions'))
            if ms is None:
                yield '?', f'mentions of {n} unknown'
                continue
            k = sum(1 for x in ms if x == O(m))
            want = 1 if n in words else 0
            if k != want and not (vague and n not in words):
                yield 'word-link', f'a node is listed {want} times among the words of a mention, which occurs {k} times among ' \
                                   f'the mentions of that node'
        head = obj.attrs.get('_head')
        if m not in gone and words and not vague and head is not None and head[0] == 'o' and head[1] not in words and \
                not r.label.startswith('CorefMention('):      # the constructor trusts its caller, create_mention does not
            yield 'head', 'the head of the mention is not one of its words'
        if m not in gone and not words and not vague:
            pass
        ent = obj.attrs.get('_entity')
        for e in entities:
            ms = items_of(st, heap[e].attrs.get('_mentions'))
            if ms is None:
                yield '?', f'mentions of {e} unknown'
                continue
            k = sum(1 for x in ms if x == O(m))
            want = 1 if ent == O(e) and m not in gone else 0
            if k != want:
                yield 'entity-link', f'the mention {"belongs" if want else "does not belong"} to an entity that lists it {k} times'
        lst = obj.attrs.get('_words')
        lo = heap.get(lst[1]) if lst and lst[0] == 'o' else None
        if m not in gone and lo is not None and len(lo.items) > 1 and not lo.sorted and '.words' in r.label:
            yield 'word-order', 'the words of the mention need not be in word order'
    for e in entities:
        lst = heap[e].attrs.get('_mentions')
        lo = heap.get(lst[1]) if lst and lst[0] == 'o' else None
        if lo is not None and len(lo.items) > 1 and not lo.sorted and ('create_mention' in r.label or '.entity' in r.label):
            yield 'mention-order', 'the mentions of the entity need not be in text order'


class Pairing(Flow):
    """Words and mentions linked by hand. State: frozenset of ('need', mention, word), ('dead', mention)."""

    def __init__(self):
        self.bad = {}
        self.links = 0

    def may_raise(self, node):
        return isinstance(node, ast.Raise)

    def broken(self, s, node, why):
        for x in s:
            if x[0] == 'need':
                self.bad.setdefault((x[1], x[2], why), node)

    def event(self, n, s):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            if isinstance(t, ast.Name) and isinstance(v, ast.Call) and ast.unparse(v.func).endswith('CorefMention') and any(
                    k.arg == 'add_word_backlinks' and isinstance(k.value, ast.Constant) and not k.value.value
                    for k in v.keywords):
                words = next((k.value for k in v.keywords if k.arg == 'words'), v.args[0] if v.args else None)
                if isinstance(words, (ast.List, ast.Tuple)):
                    return s | {('need', t.id, ast.unparse(w)) for w in words.elts}
            if isinstance(t, ast.Attribute) and t.attr in ('words', '_words') and isinstance(t.value, ast.Name):
                m = t.value.id
                s = frozenset(x for x in s if x[1] != m)
                if isinstance(v, (ast.List, ast.Tuple)) and not v.elts:
                    s = s | {('dead', m)}
                return s
            return s
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            lost = frozenset(x for x in s if x[0] == 'need' and n.id in x[1:])
            self.broken(lost, n, 'rebound')
            return frozenset(x for x in s if n.id not in x[1:])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and len(n.args) == 1 and \
                isinstance(n.func.value, ast.Attribute):
            owner, attr, arg = n.func.value.value, n.func.value.attr, n.args[0]
            if attr == '_words' and isinstance(owner, ast.Name):
                self.links += 1
                if ('dead', owner.id) in s:
                    self.bad.setdefault((owner.id, ast.unparse(arg), 'dead'), n)
                    return s
                return s | {('need', owner.id, ast.unparse(arg))}
            if attr == '_mentions' and isinstance(arg, ast.Name):
                self.links += 1
                if ('dead', arg.id) in s:
                    self.bad.setdefault((arg.id, ast.unparse(owner), 'dead'), n)
                return s - {('need', arg.id, ast.unparse(owner))}
        return s


def by_hand(ctx):
    p = ctx.p
    for f in p.functions.values():
        if f.cls is not None and f.cls.module.path == 'udapi/core/coref.py' or '/tests/' in f.module.path:
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == '_words' for n in own_nodes(f.node)):
            continue
        fl = Pairing()
        try:
            ex = fl.run(f.node, {frozenset()})
        except OverflowError:
            ctx.undet(f'{f.qual}: too many states')
            continue
        if not fl.links:
            continue
        ctx.count('functions linking words by hand')
        for s in ex.next | ex.ret:
            fl.broken(s, f.node, 'end')
        for (m, w, why), node in fl.bad.items():
            text = {'rebound': f'{w} becomes a word of {m}, but {m} is not added to the mentions of {w} on some path',
                    'end': f'{w} becomes a word of {m}, but {m} is not added to the mentions of {w} on some path',
                    'dead': f'{m} lost its words (it is deleted) but is linked with {w} afterwards on some path'}[why]
            ctx.find('dead-word' if why == 'dead' else 'word-link', f.module.path, node.lineno, f'{f.qual} {m}', text)
        if not fl.bad:
            ctx.ok(f'{f.qual}: words and mentions are linked in pairs')


def run(ctx):
    ctx.rule('word-link', 'a mention is listed in the mentions of a node exactly once if the node is one of its words, else never')
    ctx.rule('word-twice', 'no word occurs twice in a mention')
    ctx.rule('dead-word', 'a removed node is no word of any mention')
    ctx.rule('head', 'the head of a mention is one of its words')
    ctx.rule('entity-link', 'a mention is listed exactly once by its entity and by no other entity')
    ctx.rule('word-order', 'words of a mention are stored in word order')
    ctx.rule('mention-order', 'mentions of an entity are kept in text order')
    p = ctx.p
    runs = [r for r in edits(p) if 'mention' in r.label or 'Mention' in r.label or 'bridging' in r.label or 'Bridging' in r.label]
    for r in runs + list(more(p)):
        ctx.count('operations interpreted')
        if r.func is None:
            ctx.undet(f'{r.label}: no such operation')
            continue
        if r.results is None:
            ctx.undet(f'{r.label}: {r.why}')
            continue
        for fl, st in r.results:
            if fl is not None:
                ctx.count('rejected')
                continue
            if st.tainted:
                ctx.undet(f'{r.label}: {st.tainted[0]}')
                continue
            ctx.count('successful paths')
            bad = list(problems(st, r, p))
            hard = [b for b in bad if b[0] != '?']
            if hard:
                for rule, msg in hard[:2]:
                    ctx.find(rule, r.func.module.path, r.func.lineno, r.func.qual, f'after {r.label}: {msg}')
            elif bad:
                ctx.undet(f'{r.label}: {bad[0][1]}')
            else:
                ctx.ok(f'{r.label}: links agree')
    by_hand(ctx)
    ctx.floor('functions linking words by hand', 1)
    ctx.floor('operations interpreted', 60)
    ctx.floor('successful paths', 40)
