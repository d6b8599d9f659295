"""C13: coreference annotation that is stored and loaded again stays as it was."""
import itertools

from ..absint import C, is_raise
from ..text import client, hole
from .c09 import Judge, show

EXPLANATION = ('Abstract interpretation of client programs that create mentions (every set of words of sentences of up to five words and '
               'empty nodes, with every head; pairs and triples of mentions of the same and of different entities), bridging links, split '
               'antecedents and attributes with opaque identifiers and values, store them to MISC and load them in another document; the '
               'entities before and after and the MISC after storing them again are compared.')
TECHNIQUE = 'abstract interpretation with constant positions and opaque identifiers and values, compared with what was stored'

CLIENT = '''
import udapi.core.coref
from udapi.core.document import Document


def document(forms, empties, sentences):
    doc = Document()
    for s in range(sentences):
        root = doc.create_bundle().create_tree()
        for form in forms:
            root.create_child(form=form)
        for i, form in empties:
            root.descendants[max(i - 1, 0)].create_empty_child('dep', after=i > 0, form=form)
    return [doc, list(doc.nodes_and_empty)]


def annotate(w, entities, mentions, bridges, splits):
    doc, nodes = w
    doc.meta['global.Entity'] = 'eid-etype-head-other'
    created = [doc.create_coref_entity(eid, etype) for eid, etype in entities]
    made = []
    for e, head, words, other in mentions:
        mention = created[e].create_mention(head=nodes[head], words=[nodes[i] for i in words])
        for k, v in other:
            mention.other[k] = v
        made.append(mention)
    for m, e, relation in bridges:
        made[m].bridging.append((created[e], relation))
    for e, antes in splits:
        created[e].split_ante = [created[a] for a in antes]


def snapshot(w):
    doc, nodes = w
    res = []
    for entity in doc.coref_entities:
        mentions = []
        for m in entity.mentions:
            mentions.append((tuple([nodes.index(n) for n in m.words]), nodes.index(m.head),
                             tuple(sorted([(k, v) for k, v in m.other.items()])),
                             tuple([(link.target.eid, link.relation) for link in sorted(m.bridging)])))
        res.append((entity.eid, entity.etype or '', tuple(mentions), tuple([a.eid for a in entity.split_ante])))
    return tuple(res)


def links(w):
    doc, nodes = w
    return tuple([tuple([(m.entity.eid, tuple([nodes.index(x) for x in m.words])) for m in sorted(n.coref_mentions)]) for n in nodes])


def listed(w):
    return tuple([tuple([m.entity.eid for m in n.coref_mentions]) for n in w[1]])


def stored(w):
    return tuple([(n.misc['Entity'], n.misc['Bridge'], n.misc['SplitAnte']) for n in w[1]])


def again(w, empty, header):
    doc, nodes = w
    if header:
        doc.meta['global.Entity'] = header
    before = snapshot(w)
    there = links(w)
    udapi.core.coref.store_coref_to_misc(doc)
    first = stored(w)
    kept = snapshot(w)
    doc2, nodes2 = empty
    doc2.meta['global.Entity'] = doc.meta['global.Entity']
    for a, b in zip(nodes, nodes2):
        b.misc = str(a.misc)
    after = snapshot(empty)
    back = links(empty)
    udapi.core.coref.store_coref_to_misc(doc2)
    return [before, first, kept, after, stored(empty), there, back, tuple([e.eid for e in sorted(doc.coref_entities)]), listed(empty)]


def load(w, strings, header):
    doc, nodes = w
    doc.meta['global.Entity'] = header
    for i, n in enumerate(nodes):
        n.misc['Entity'] = strings[i]
    return [snapshot(w)]


def grouped(w, strings, header):
    doc, nodes = w
    doc.meta['global.Entity'] = header
    for i, n in enumerate(nodes):
        n.misc['Entity'], n.misc['Bridge'], n.misc['SplitAnte'] = strings[i]
        n.root.newdoc = True
    loaded = snapshot(w)
    udapi.core.coref.store_coref_to_misc(doc)
    return [loaded, stored(w)]
'''


class Coref(Judge):
    def __init__(self, ctx):
        super().__init__(ctx)
        client(ctx.p, CLIENT)
        self.store = ctx.p.functions['udapi.core.coref.store_coref_to_misc']
        self.load = ctx.p.functions['udapi.core.coref.load_coref_from_misc']
        self.attr = ctx.p.classes['udapi.core.coref.OtherDualDict'].find_method('__setitem__')
        self.bases = {}

    def base(self, n, empties, sentences=1):
        """(two equal documents, state)"""
        key = n, empties, sentences
        if key not in self.bases:
            forms = ('tup', tuple(C(hole(i)) for i in range(n)))
            emp = ('tup', tuple(('tup', (C(i), C(hole(20 + i)))) for i in empties))
            a = self.call(f'{n} words', 'document', [forms, emp, C(sentences)], None)
            b = self.call(f'{n} words', 'document', [forms, emp, C(sentences)], a[1]) if a and not is_raise(a[0]) else None
            self.bases[key] = (a[0], b[0], b[1]) if b and not is_raise(b[0]) else None
        return self.bases[key]


def lift(v):
    return ('tup', tuple(map(lift, v))) if isinstance(v, tuple) else C(v)


def pieces(words):
    """Continuous parts of a set of positions."""
    res = []
    for i in words:
        if res and res[-1][1] == i - 1:
            res[-1][1] = i
        else:
            res.append([i, i])
    return [tuple(x) for x in res]


def expressible(a, b):
    """Can two mentions of one entity be told apart in the format?"""
    pa, pb = pieces(a), pieces(b)
    if len(pa) > 1 and len(pb) > 1 and not (a[-1] < b[0] or b[-1] < a[0]):
        return False
    for x in pa:
        for y in pb:
            if x == y or x[0] < y[0] <= x[1] < y[1] or y[0] < x[0] <= y[1] < x[1]:
                return False
    return True


def subsets(n):
    return [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]


EIDS = ['e1', 'e12', 'x', 'e']
TYPES = [hole(70 + i) for i in range(4)]


def run(ctx):
    ctx.rule('words', 'every mention has the same entity, words and head after storing and loading')
    ctx.rule('attributes', 'types of entities and attributes of mentions are the same after storing and loading')
    ctx.rule('loading', 'annotation with the brackets of a word in another order than they are stored in is loaded, too')
    ctx.rule('links', 'bridging links and split antecedents are the same after storing and loading')
    ctx.rule('stable', 'storing does not change entities; storing again gives the same MISC')
    deep = ctx.tier == 'thorough'
    j = Coref(ctx)
    annotated(ctx, j, deep)
    singles(ctx, j, deep)
    pairs(ctx, j, deep)
    triples(ctx, j, deep)
    orders(ctx, j, deep)
    texts(ctx, j)
    ctx.floor('annotations', 100)


def singles(ctx, j, deep):
    """One mention: every set of nodes, every head."""
    shapes = ((1, ()), (2, ()), (3, ()), (4, ()), (2, (0,)), (3, (1,)), (2, (1, 1)), (2, (2,)), (2, (0, 1, 2)))
    for n, empties in shapes + (((5, ()), (4, (1, 3)), (3, (1, 1, 3))) if deep else ()):
        for words in subsets(n + len(empties)):
            for head in words:
                one(ctx, j, (n, empties), [(EIDS[0], TYPES[0])], [(0, head, words, ())])


def pairs(ctx, j, deep):
    """Two mentions of one or of two entities."""
    for n, empties in ((3, ()), (2, (1,)), (4, ())) + (((3, (2,)), (3, (0,))) if deep else ()):
        sets = subsets(n + len(empties))
        for a, b in itertools.combinations_with_replacement(sets, 2):
            if n == 4 and not deep and (sum(a) + 2 * sum(b)) % 4:
                continue
            for same in (False, True):
                if same and not expressible(a, b):
                    continue
                ents = [(EIDS[0], TYPES[0])] + [(EIDS[1], None)] * (not same)
                for x, y in ((a, b), (b, a))[:1 if a == b or n == 4 and not deep else 2]:
                    one(ctx, j, (n, empties), ents, [(0, x[-1], x, ()), (int(not same), y[0], y, ())])


def triples(ctx, j, deep):
    """Three mentions, continuous or not."""
    spans = [tuple(range(a, b + 1)) for a in range(4) for b in range(a, 4)] + [(0, 2), (0, 1, 3), (1, 3)]
    for k, (a, b, c) in enumerate(itertools.combinations_with_replacement(spans, 3)):
        for ents in ((0, 1, 2), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 0)):
            if (k + ents[0] + 2 * ents[2]) % 5 and not deep:
                continue
            ms = list(zip(ents, (a, b, c)))
            if all(x[0] != y[0] or expressible(x[1], y[1]) for x, y in itertools.combinations(ms, 2)):
                one(ctx, j, (4, ()), [(EIDS[i], TYPES[i] if i else None) for i in range(len(set(ents)))],
                    [(e, words[k % len(words)], words, ()) for e, words in ms])


def orders(ctx, j, deep):
    """The brackets of each word in every order that can be taken apart."""
    base = j.base(3, (), 1)
    if base is None:
        return
    spans = [tuple(range(a, b + 1)) for a in range(3) for b in range(a, 3)]
    for header in ('eid-etype-head-other', 'eid', 'eid-head'):
        for a, b in itertools.product(spans, repeat=2):
            chunks = [[] for _ in range(3)]
            for e, m in enumerate((a, b)):
                head = m[-1] if 'head' in header else m[0]
                start = '(' + '-'.join({'eid': EIDS[e], 'etype': TYPES[e], 'head': str(len(m)), 'other': ''}[f] for f in header.split('-')).rstrip('-')
                if len(m) == 1:
                    chunks[m[0]].append(start + ')')
                else:
                    chunks[m[0]].append(start)
                    chunks[m[-1]].append(EIDS[e] + ')')
            for order in itertools.product(*(list(itertools.permutations(c)) for c in chunks)):
                if any(x[-1] != ')' and y[0] != '(' for c in order for x, y in zip(c, c[1:])):
                    continue
                if header != 'eid-etype-head-other' and not deep and a >= b:
                    continue
                strings = tuple(''.join(c) for c in order)
                label = f'Entity={show(list(strings))}, global.Entity = {header}'
                got = j.ask('loading', label, j.load, 'load', [base[1], lift(strings), C(header)], base[2])
                ctx.count('annotations')
                if got is None:
                    continue
                want = sorted((EIDS[e], [(m, m[-1] if 'head' in header else m[0])]) for e, m in enumerate((a, b)))
                res = sorted((x[0], [m[:2] for m in x[2]]) for x in got[0][0])
                ctx.check('loading', res == want, j.load.module.path, j.load.lineno, j.load.qual, f'{label}: loaded as {res} instead of {want}')


def texts(ctx, j):
    """Annotation as it is found in files."""
    h = [hole(80 + i) for i in range(8)]
    t = TYPES
    n = ('', '', '')
    one = ((f'(1-{t[0]}-1(2-{t[1]}-1)', '', ''), (f'(3-{t[2]}-1)1)', '1<3:' + h[0] + ',2<3', '1<3,2<3'))
    two = ((f'(4[1/2]-{t[0]}-2)(1-{t[1]}-1)', '4<1', ''), (f'(2-{t[2]}-1', '', ''), (f'(4[2/2]-{t[0]}-2)2)', '', ''))
    for header, sentences, strings, entities in (
            ('GRP-etype-head-other', 2, one + one, 6), ('GRP-etype-head-other', 2, two + two, 6),
            ('eid-etype-head-other', 2, one + (n, (f'(1-{t[0]}-1)', '', '')), 3),
            ('eid-etype-head-minspan-link-identity', 1, ((f'(a-{t[0]}-2-1,2-{h[0]}', '', ''), (f'a)(b-{t[1]}-1--{h[1]}-{h[2]})', '', '')), 2),
            ('eid-etype-head-minspan-other', 1, ((f'(a-{t[0]}-1-1,2-{h[0]}:{h[1]},{h[3]}:{h[2]}', '', ''), ('a)', '', '')), 1),
            ('eid-etype-head-minspan-other', 1, ((f'(a-{t[0]}-1-1-{h[0]}:{h[1]}%2C{h[2]})', '', ''), n), 1),
            ('eid-etype-head-other', 1, ((f'(a-{t[0]}-1-{h[0]})', '', ''), (f'(b--1-{h[0]}:{h[1]}:{h[2]})', '', '')), 2),
            ('eid-etype-head-identity', 1, ((f'(a-{t[0]}-1-{h[0]}%2C{h[1]})', '', ''), n), 1),
            ('eid-etype', 1, ((f'(a-{t[0]})(b', '', ''), (f'(c-{t[0]})b)', '', '')), 3)):
        base = j.base(len(strings) // sentences, (), sentences)
        label = f'{show(list(strings))}, global.Entity = {header}'
        got = j.ask('stable', label, j.load, 'grouped', [base[1], lift(strings), C(header)], base[2]) if base else None
        if got is None:
            continue
        ctx.count('annotations')
        loaded, stored = got[0]
        ctx.check('stable', [sorted(x[0]) for x in stored] == [sorted(x[0]) for x in strings] and [x[1:] for x in stored] == [x[1:] for x in strings],
                  j.store.module.path, j.store.lineno, j.store.qual, f'{label}: stored as {show(list(stored))}')
        ctx.check('words', len(loaded) == entities, j.load.module.path, j.load.lineno, j.load.qual,
                  f'{label}: {len(loaded)} entities are loaded instead of {entities}')


def annotated(ctx, j, deep):
    """Attributes, headers, bridging links and split antecedents."""
    h = [hole(80 + i) for i in range(8)]
    ents = [(EIDS[i], TYPES[i]) for i in range(4)]
    for mentions in ([(0, (0, 1)), (1, (1,))], [(0, (0, 2)), (1, (0,))], [(0, (0,)), (0, (0, 1, 2))], [(0, (1,)), (1, (0, 1, 2))]):
        for header, attrs in (
                (None, [('k', h[0]), ('L', h[1])]), (None, [('eid', h[0])]), (None, [('head', h[0]), ('etype', h[1])]), (None, [('k', h[0] + ',' + h[1])]),
                ('eid-etype-head-k-other', [('k', h[0]), ('l', h[1])]), ('eid-etype-head-k-other', [('l', h[1])]),
                ('eid-etype-head-k-other', [('k', h[1])]), ('eid-etype-head-other-k', [('k', h[1]), ('l', h[0])]),
                ('eid-etype-head-minspan-link-identity', [('minspan', '1,2'), ('link', h[0]), ('identity', h[1])]),
                ('eid-etype-head-minspan-link-identity', [('identity', h[1])]), ('eid-head-k-l-etype', [('k', h[1])]),
                ('eid-etype-head-k-other', [('k', h[0] + ',' + h[1]), ('a', h[2]), ('z', h[3])])):
            for which in (0, 1, 2):
                ms = [(e, words[-1], words, tuple(attrs) if which in (i, 2) else ()) for i, (e, words) in enumerate(mentions)]
                one(ctx, j, (3, ()), ents[:1 + max(e for e, _ in mentions)], ms, header=header, rule='attributes')
    # bridging links
    layouts = ([(0, (0,)), (1, (1,)), (2, (2,))], [(0, (0, 1)), (1, (0,)), (2, (2,))], [(0, (1, 2)), (1, (0, 2)), (2, (0, 1, 2))],
               [(0, (0, 2)), (1, (1,)), (2, (1, 2))], [(0, (0,)), (0, (1,)), (1, (2,))], [(0, (2,)), (1, (0, 1)), (2, (1,))],
               [(0, (0, 1)), (1, (0, 2)), (2, (0,))])
    for k, layout in enumerate(layouts):
        ms = [(e, words[0], words, ()) for e, words in layout]
        used = ents[:1 + max(e for e, _ in layout)]
        targets = range(len(used))
        single = [(m, t, r) for m in range(3) for t in targets if t != layout[m][0] for r in ('', h[0], h[1])]
        for bridges in [(x,) for x in single] + [(x, y) for x, y in itertools.permutations(single, 2) if (deep or (x[0] + y[0] + y[1] + k) % 3 == 0) and
                                                 (x[2], y[2]) in (('', h[0]), (h[1], h[1]), ('', '')) and x[:2] != y[:2]]:
            one(ctx, j, (3, ()), used, ms, bridges=bridges, rule='links', grouped=len(bridges) == 1 or deep)
    ms = [(0, 0, (0, 1), ()), (1, 1, (1,), ()), (2, 2, (2,), ()), (3, 1, (1, 2), ())]
    for rels in itertools.product(('', h[0], h[0] + ':' + h[1], h[2]), repeat=3):
        if deep or len(set(rels)) > 2:
            one(ctx, j, (3, ()), ents, ms, bridges=tuple((0, k, r) for k, r in zip((3, 1, 2), rels)), rule='links')
    # split antecedents
    for k, layout in enumerate(layouts[:4] + layouts[5:]):
        layout = layout + [(3, ((0,), (1, 2), (2,), (0, 1, 2))[k % 4])]
        ms = [(e, words[-1], words, ()) for e, words in layout]
        for splits in ((0, (1, 2)), ), ((0, (2, 1)), ), ((3, (0, 1, 2)), ), ((3, (0, 1)), (2, (0, 3))), ((0, (3, 2)), (1, (2, 3))), ((1, (0, 2)), (0, (2, 3))):
            one(ctx, j, (3, ()), ents, ms, splits=splits, rule='links', grouped=True)
    # several sentences
    for layout in [((0, (0, 1)), (1, (2, 3)), (0, (3,))), ((0, (0,)), (1, (2,)), (1, (0, 1)), (0, (2, 3))), ((1, (3,)), (0, (0, 1)), (1, (1,)))]:
        ms = [(e, words[-1], words, ()) for e, words in layout]
        for bridges in ((), ((0, 1 - layout[0][0], h[0]), ), ((2, 1 - layout[2][0], ''), )):
            one(ctx, j, (2, ()), ents[:2], ms, bridges=bridges, sentences=2)


def one(ctx, j, shape, entities, mentions, bridges=(), splits=(), header=None, rule='words', sentences=1, grouped=False):
    base = j.base(*shape, sentences)
    if base is None:
        ctx.undet(f'{shape}: the document cannot be built')
        return
    w, w2, st = base
    label = f'{shape[0]} words, empty nodes after {list(shape[1])}, mentions ' + \
        ', '.join(f'{"ABCD"[m[0]]}{list(m[2])} head {m[1]}' for m in mentions)
    if header or any(m[3] for m in mentions):
        label += f', attributes {[show(m[3]) for m in mentions]}, header {header}'
    if bridges:
        label += f', bridging {[x[:2] for x in bridges]}'
    if splits:
        label += f', split antecedents {list(splits)}'
    res = j.call(label, 'annotate', [w, lift(tuple(entities)), lift(tuple(mentions)), lift(tuple(bridges)), lift(tuple(splits))], st)
    if res is None:
        return
    if is_raise(res[0]):
        ctx.undet(f'{label}: cannot be annotated')
        return
    ctx.count('annotations')
    got = j.ask(rule, label, j.store, 'again', [w, w2, C(header)], res[1])
    if got is None:
        return
    before, first, kept, after, second, there, back, order, listed = got[0]
    name = {x[0]: 'ABCD'[i] for i, x in enumerate(entities)}

    def verdict(r, ok, f, msg):
        ctx.check(r, ok, f.module.path, f.lineno, f.qual, f'{label}: {msg}')

    def words(s):
        return [(name.get(x[0], x[0]), [m[:2] for m in x[2]]) for x in s]

    def attributes(s):
        return [(x[1], [m[2] for m in x[2]]) for x in s]

    def links(s):
        return [(x[3], [m[3] for m in x[2]]) for x in s]
    verdict('stable', kept == before, j.store, 'storing changes the entities')
    verdict('words', order == tuple(x[0] for x in after), j.load, f'the entities are loaded in the order {[x[0] for x in after]}')
    before, loaded = sorted(before), sorted(after)
    given = sorted((tuple(m[2]), tuple(sorted((k, v.replace(',', '%2C')) for k, v in m[3]))) for m in mentions)
    verdict('attributes', given == sorted((m[0], m[2]) for x in before for m in x[2]), j.attr, f'attributes {show(given)} become '
            f'{show(attributes(before))}')
    verdict('words', words(before) == words(loaded), j.load, f'{words(before)} is loaded as {words(loaded)} from {show([x[0] for x in first])}')
    verdict('words', there == back, j.load, 'the words list other mentions after loading')
    verdict('words', [tuple(m[0] for m in n) for n in back] == list(listed), j.load, 'the words do not list their mentions in order after loading')
    verdict('attributes', attributes(before) == attributes(loaded), j.load,
            f'{show(attributes(before))} is loaded as {show(attributes(loaded))} from {show([x[0] for x in first])}')
    verdict('links', links(before) == links(loaded), j.load, f'{show(links(before))} is loaded as {show(links(loaded))} from {show([x[1:] for x in first])}')
    verdict('stable', first == second, j.store, f'{show(list(first))} becomes {show(list(second))} when stored again')
    if grouped:
        group(ctx, j, base, label, rule, first, words, links, before, verdict)


def group(ctx, j, base, label, rule, first, words, links, before, verdict):
    """The same with identifiers that are valid within one document only."""
    plain = {x[0] for x in before}
    got = j.ask(rule, label + ', GRP', j.load, 'grouped', [base[1], lift(first), C('GRP-etype-head-other')], base[2])
    if got is None:
        return
    loaded, stored = got[0]
    prefix = {x[0][:len(x[0]) - len(e)] for x in loaded for e in plain if x[0].endswith(e)}
    verdict('stable', [[sorted(y) for y in x] for x in stored] == [[sorted(y) for y in x] for x in first], j.store, f'with GRP, {show(list(first))} is stored as {show(list(stored))}')
    verdict('words', sorted(m for x in words(loaded) for m in x[1]) == sorted(m for x in words(before) for m in x[1]) and
            len({x[0] for x in loaded}) == len(before), j.load, 'with GRP, other mentions are loaded')
    verdict('words', len(prefix) >= 1, j.load, 'with GRP, the identifiers are other ones')
