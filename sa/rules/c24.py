"""C24: writers show every word and every edge once and in order."""
import itertools
import json
import re
import xml.etree.ElementTree as ET

from ..absint import C, is_raise
from ..system import System
from ..text import STDOUT, client, hole
from .c09 import Judge, show, trees

EXPLANATION = ('Abstract interpretation of the visualizing writers on all trees of up to four words (thorough: five), with and without empty '
               'nodes, multiword tokens and zones, for every layout and option; numbers, heads and the widths of words are constants, other '
               'attributes opaque. The text that is written is decoded again (branches and bridges of the drawings, relations of Sdparse, '
               'edges of TikZ, nesting of Treex, identifiers of the JSON) and compared with the words and heads of the tree.')
TECHNIQUE = 'abstract interpretation with constant tree shapes and opaque contents; the output is decoded and compared with the tree'

CLIENT = '''
import io
from udapi.core.document import Document
from udapi.block.write.textmodetrees import TextModeTrees
from udapi.block.write.textmodetreeshtml import TextModeTreesHtml
from udapi.block.write.sdparse import Sdparse
from udapi.block.write.tikz import Tikz
from udapi.block.write.treex import Treex
from udapi.block.write.html import Html
from udapi.block.write.sentences import Sentences
from udapi.block.write.sentenceshtml import SentencesHtml
from udapi.block.write.vislcg import Vislcg
from udapi.block.read.vislcg import Vislcg as VislcgReader


def document(bundles):
    doc = Document()
    for bundle_id, trees in bundles:
        bundle = doc.create_bundle()
        bundle.bundle_id = bundle_id
        for zone, words, empties, tokens, extra in trees:
            root = bundle.create_tree(zone)
            for values, _ in words:
                node = root.create_child()
                for k, v in values:
                    setattr(node, k, v)
            nodes = [root] + list(root.descendants)
            for i, (_, h) in enumerate(words, 1):
                if h > i:
                    nodes[i].parent = nodes[h]
            for i, (_, h) in enumerate(words, 1):
                nodes[i].parent = nodes[h]
            for i, values in empties:
                empty = nodes[max(i, 1)].create_empty_child('dep', after=i > 0)
                for k, v in values:
                    setattr(empty, k, v)
            for first, last, form in tokens:
                root.create_multiword_token(nodes[first:last + 1], form=form)
            for k, v in extra:
                if k == 'deps':
                    for child, parent, deprel in v:
                        nodes[child].deps.append({'parent': nodes[parent], 'deprel': deprel})
                else:
                    setattr(root, k, v)
    return doc


def writer(kind, kwargs):
    if kind == 'TextModeTrees':
        return TextModeTrees(**kwargs)
    if kind == 'TextModeTreesHtml':
        return TextModeTreesHtml(**kwargs)
    if kind == 'Sdparse':
        return Sdparse(**kwargs)
    if kind == 'Tikz':
        return Tikz(**kwargs)
    if kind == 'Treex':
        return Treex(**kwargs)
    if kind == 'Html':
        return Html(**kwargs)
    if kind == 'Sentences':
        return Sentences(**kwargs)
    if kind == 'SentencesHtml':
        return SentencesHtml(**kwargs)
    return Vislcg(**kwargs)


def write(doc, kind, kwargs):
    writer(kind, dict(kwargs)).run(doc)
    return True


def draw(doc, index, kwargs):
    tree = list(doc.trees)[0]
    ([tree] + list(tree.descendants))[index].draw(**dict(kwargs))
    return True


def read_again(text):
    doc = Document()
    reader = VislcgReader(filehandle=io.StringIO(text))
    reader.process_document(doc)
    return [[tuple([(n.ord, n.form, n.lemma, n.xpos, str(n.feats), n.deprel, n.parent.ord) for n in t.descendants]),
             tuple([(m.form, tuple([w.ord for w in m.words])) for m in t.multiword_tokens])] for t in doc.trees]
'''


class Writers(Judge):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.steps *= 3
        client(ctx.p, CLIENT)

    def interpreter(self):
        it = System(self.p, budget=600000)
        it.letters = True
        return it

    def fn(self, kind, method='process_tree'):
        cls = self.p.classes[f'udapi.block.write.{kind.lower()}.{kind}']
        return cls.find_method(method) or cls.find_method('process_document')

    def verdict(self, rule, fn, ok, msg):
        self.ctx.check(rule, ok, fn.module.path, fn.lineno, fn.qual, msg)

    def document(self, bundles):
        res = self.call('document', 'document', [lift(bundles)], None)
        return None if res is None or is_raise(res[0]) else res

    def output(self, rule, label, fn, func, args, st):
        """The text that is written; None if unknown or if an exception is reported."""
        res = self.call(label, func, args, st)
        if res is None:
            return None
        v, s = res
        if is_raise(v):
            self.verdict(rule, fn, False, f'{label}: {v[1][1]} is raised')
            return None
        text = s.heap[STDOUT].attrs['text']
        if text[0] != 'c':
            self.ctx.undet(f'{label}: unknown output')
            return None
        return text[2]


def lift(v):
    return ('tup', tuple(map(lift, v))) if isinstance(v, (tuple, list)) else C(v)


def one(words, empties=(), tokens=(), extra=(), zone='', bundle='1'):
    return [(bundle, [(zone, words, empties, tokens, extra)])]


FORMS = ('a', 'bcd', 'ef', 'ghij', 'k')


def plain_words(heads, forms=FORMS, **more):
    return [([('form', forms[i]), ('upos', 'UX'), ('deprel', f'd{i + 1}')] + list(more.get(f'w{i + 1}', ())), h) for i, h in enumerate(heads)]


def run(ctx):
    ctx.rule('lines', 'each word (and empty node) has one line, in word order, with its attributes')
    ctx.rule('edges', 'the drawn edges are those of the tree')
    ctx.rule('bridges', 'a drawing has no crossing edges when the tree is projective')
    ctx.rule('columns', 'the layouts align attributes and keep edges left of the words as documented')
    ctx.rule('headers', 'the headers are printed as the options say')
    ctx.rule('trees', 'exactly the selected trees are written, in order')
    ctx.rule('relations', 'the relations that are written are those of the tree, and each word is named once')
    ctx.rule('missing', 'words whose tags and relations are not set are written, too')
    ctx.rule('again', 'words, features, heads and multiword tokens that write.Vislcg prints are read again')
    j = Writers(ctx)
    drawings(ctx, j)
    subtrees(ctx, j)
    headers(ctx, j)
    marked(ctx, j)
    selection(ctx, j)
    sdparse(ctx, j)
    tikz(ctx, j)
    treex(ctx, j)
    html(ctx, j)
    sentences(ctx, j)
    vislcg(ctx, j)
    paragraphs(ctx, j)
    missing(ctx, j)


# ---------------------------------------------------------------- drawings
BOX = set('─╭├╰┡┢│╪┮┾┶╼')
NODES = set('┮┾┶╼')
CONFIGS = [
    (), (('layout', 'compact'),), (('layout', 'align'),), (('layout', 'align-words'),), (('minimize_cross', 0),), (('hints', 0),),
    (('indent', 0),), (('indent', 3), ('layout', 'compact')), (('hints', 0), ('minimize_cross', 0), ('layout', 'align')),
    (('print_empty', 0),), (('indent', 2), ('hints', 0), ('minimize_cross', 0), ('attributes', 'ord')),
]


def decode(lines, count):
    """(heads as line numbers, None for the top; number of crossings) of a drawing, or a complaint."""
    grid = {}
    for y, line in enumerate(lines):
        for x, ch in enumerate(line):
            if ch in BOX:
                grid[y, x] = ch
    place = {}
    for (y, x), ch in sorted(grid.items()):
        if ch in NODES:
            if y in place:
                return f'two nodes on line {y + 1}'
            place[y] = x
    heads = {}
    for y, x in place.items():
        x -= 1
        while grid.get((y, x)) in ('─', '╪'):
            x -= 1
        ch = grid.get((y, x))
        if ch is None or ch not in '╭├╰┡┢':
            heads[y] = None
            continue
        hits = []
        for step in (-1, 1):
            if step == -1 and ch in '╭┢' or step == 1 and ch in '╰┡':
                continue
            r = y + step
            while grid.get((r, x), ' ') in '│╪├┡┢':
                r += step
            end = grid.get((r, x), ' ')
            if end in '┮┾┶' and (step == -1 and end in '┮┾' or step == 1 and end in '┾┶'):
                hits.append(r)
            elif end in '╭╰┮┾┶╼' or end == ' ':
                if ch in '╭╰┡┢' or end == ' ':
                    return f'the edge of line {y + 1} leads nowhere'
        if len(hits) != 1:
            return f'the edge of line {y + 1} is ambiguous'
        heads[y] = hits[0]
    return heads, sum(ch == '╪' for ch in grid.values())


def texts(lines):
    return [''.join(' ' if ch in BOX else ch for ch in line).split() for line in lines]


def projective(heads):
    spans = [tuple(sorted((i, h))) for i, h in enumerate(heads, 1)]
    return not any(a < c < b < d for a, b in spans for c, d in spans)


def drawn(j, kind, label, fn, lines, heads, empties, attributes, cfg, top=0, subset=None):
    """Compares the lines of a drawing with the tree."""
    cfg = dict(cfg)
    n = len(heads)
    order = [('n', 0)]
    for i, _ in empties if cfg.get('print_empty', 1) else ():
        if i == 0:
            order.append(('e', 0))
    for k in range(1, n + 1):
        order.append(('n', k))
        order += [('e', i) for i, _ in empties if i == k and i and cfg.get('print_empty', 1)]
    if subset is not None:
        inside = [x for x in order if x[0] == 'n' and x[1] in subset]
        span = order[order.index(inside[0]):order.index(inside[-1]) + 1]
        order = [x for x in span if x in inside or x[0] == 'e']
    want = [attributes(x) for x in order]
    if len(lines) != len(order):
        j.verdict('lines', fn, False, f'{label}: {len(lines)} lines instead of {len(order)}')
        return
    got = texts(lines)
    bad = next((i for i in range(len(order)) if got[i] != want[i]), None)
    j.verdict('lines', fn, bad is None,
              f'{label}: line {(bad or 0) + 1} shows {" ".join(got[bad or 0])!r} instead of {" ".join(want[bad or 0])!r}')
    if bad is not None:
        return
    res = decode(lines, n)
    if isinstance(res, str):
        j.verdict('edges', fn, False, f'{label}: {res}')
        return
    found, crossings = res
    line_of = {x: y for y, x in enumerate(order)}
    expected = {}
    for kind_, k in order:
        if kind_ == 'n':
            expected[line_of['n', k]] = None if k == top else line_of['n', heads[k - 1]]
    if found != expected:
        y = next(y for y in range(len(order)) if found.get(y, '-') != expected.get(y, '-'))
        name = lambda z: 'no node' if z == '-' else 'no head' if z is None else f'head in line {z + 1}'
        j.verdict('edges', fn, False, f'{label}: line {y + 1} shows {name(found.get(y, "-"))} instead of {name(expected.get(y, "-"))}')
        return
    j.verdict('edges', fn, True, '')
    if projective(heads):
        j.verdict('bridges', fn, crossings == 0, f'{label}: {crossings} bridges in a projective tree')
    layout = cfg.get('layout', 'classic')
    if layout != 'classic':
        starts = []
        for y, line in enumerate(lines):
            if not want[y]:
                continue
            first = next(x for x, ch in enumerate(line) if ch not in BOX and ch != ' ')
            starts.append(first)
            ok = not any(ch in BOX for ch in line[first:])
            j.verdict('columns', fn, ok, f'{label}: an edge is right of the word on line {y + 1}')
        if layout.startswith('align'):
            j.verdict('columns', fn, len(set(starts)) <= 1, f'{label}: the first attributes start in columns {sorted(set(starts))}')
        if layout == 'align':
            cols = [tuple(m.start() for m in re.finditer(r'[^\s─╭├╰┡┢│╪┮┾┶╼]+', line)) for y, line in enumerate(lines) if want[y]]
            j.verdict('columns', fn, len(set(cols)) <= 1, f'{label}: the attributes start in columns {sorted(set(cols))}')


def values(heads, attrs):
    def of(x):
        kind, i = x
        if kind == 'e':
            return [{'form': f'E{i}', 'ord': f'{i}.1'}.get(a, '_') for a in attrs]
        if i == 0:
            return []
        return [{'form': FORMS[i - 1], 'upos': 'UX', 'deprel': f'd{i}', 'ord': str(i)}[a] for a in attrs]
    return of


def drawings(ctx, j):
    fn = j.fn('TextModeTrees')
    deep = ctx.tier == 'thorough'
    shapes = [h for n in range(0, 5) for h in trees(n)]
    if deep:
        shapes += trees(5)[::11]
    for k, heads in enumerate(shapes):
        n = len(heads)
        for e, empties in enumerate(((), ((0, (('form', 'E0'),)), (n - k % 2, (('form', f'E{n - k % 2}'),))) if n > 1 else ())):
            if e and not empties:
                continue
            second = n < 3 and n       # the second tree is not influenced by the first one
            doc = j.document(one(plain_words(heads), empties) + (one(plain_words((2, 0)), bundle='2') if second else []))
            if doc is None:
                continue
            picks = CONFIGS if deep or n < 3 else [CONFIGS[(k + i) % len(CONFIGS)] for i in range(0, len(CONFIGS), 3)]
            for cfg in picks:
                attrs = dict(cfg).get('attributes', 'form,upos,deprel').split(',')
                label = f'write.TextModeTrees {" ".join(f"{a}={b}" for a, b in cfg)} of {show(heads)}{" with empty nodes" if empties else ""}'
                text = j.output('lines', label, fn, 'write', [doc[0], C('TextModeTrees'), lift(cfg + (('color', 0),))], doc[1])
                if text is None:
                    continue
                ctx.count('drawings')
                if second:
                    text, _, more = text.partition('# sent_id = 2\n')
                    lines = more.split('\n')[1:-2]
                    drawn(j, 'TextModeTrees', label + ' followed by (2, 0)', fn, lines, (2, 0), (), values((2, 0), attrs), cfg)
                lines = text.split('\n')
                j.verdict('headers', fn, lines[0] == '# sent_id = 1' and lines[1].startswith('# text = ') and lines[-2:] == ['', ''],
                          f'{label}: the headers are {lines[:2]}')
                drawn(j, 'TextModeTrees', label, fn, lines[2:-2], heads, empties, values(heads, attrs), cfg)


def below(heads, top):
    res = {top}
    while True:
        more = {i for i, h in enumerate(heads, 1) if h in res} - res
        if not more:
            return res
        res |= more


def subtrees(ctx, j):
    fn = j.fn('TextModeTrees')
    for heads in [h for n in (2, 3, 4) for h in trees(n)]:
        if len(heads) == 4 and ctx.tier != 'thorough' and sum(heads) % 3:
            continue
        empties = ((0, (('form', 'E0'),)), (2, (('form', 'E2'),)))
        doc = j.document(one(plain_words(heads), empties))
        if doc is None:
            continue
        for top in range(1, len(heads) + 1):
            if top not in heads and top > 1:
                continue
            cfg = (CONFIGS + [()])[(top + sum(heads)) % len(CONFIGS)]
            attrs = dict(cfg).get('attributes', 'form,upos,deprel').split(',')
            label = f'node.draw({", ".join(f"{a}={b!r}" for a, b in cfg)}) of word {top} of {show(heads)}'
            text = j.output('lines', label, fn, 'draw', [doc[0], C(top), lift(cfg + (('color', 0),))], doc[1])
            if text is None:
                continue
            ctx.count('drawings of subtrees')
            lines = text.split('\n')
            j.verdict('headers', fn, lines[0] == f'# sent_id = 1#{top}' and lines[1].startswith('# text = ') and lines[-2:] == ['', ''],
                      f'{label}: the headers are {lines[:2]}')
            drawn(j, 'TextModeTrees', label, fn, lines[2:-2], heads, empties, values(heads, attrs), cfg, top, below(heads, top))


COMMENT = ' one\n ToDo = two\n'


def headers(ctx, j):
    """Headers and blank lines."""
    for kind in ('TextModeTrees', 'TextModeTreesHtml'):
        fn = j.fn(kind)
        doc = j.document(one(plain_words((2, 0)), (), (), (('text', 'the text'), ('comment', COMMENT))))
        if doc is None:
            continue
        for sid, text_, comments, blank in itertools.product((0, 1), repeat=4):
            cfg = (('print_sent_id', sid), ('print_text', text_), ('print_comments', comments), ('add_empty_line', blank),
                   ('color', 0), ('mark', ''))
            label = f'write.{kind} {" ".join(f"{a}={b}" for a, b in cfg)}'
            text = j.output('headers', label, fn, 'write', [doc[0], C(kind), lift(cfg + ((('zones_in_rows', 0),) if kind.endswith('l') else ()))], doc[1])
            if text is None:
                continue
            ctx.count('headers')
            if kind.endswith('l'):
                text = re.search('<pre>\n(.*)</pre>', text, re.S).group(1)
            want = ['# sent_id = 1'] * sid + ['# text = the text'] * text_ + ['# one', '# ToDo = two'] * comments
            got = text.split('\n')
            rest = got[len(want):]
            ok = got[:len(want)] == want and rest[3:] == [''] * (1 + blank) and bool(rest) and '\u252e' in rest[0]
            j.verdict('headers', fn, ok, f'{label}: {got} is printed')


def strip_tags(text):
    return re.sub('<[^>]*>', '', text)


def marked(ctx, j):
    """Marked words and marked_only."""
    for kind in ('TextModeTrees', 'TextModeTreesHtml'):
        fn = j.fn(kind)
        for heads in ((2, 0), (0, 1, 1), (3, 4, 0, 1), (0, 4, 1, 1)):
            for where in range(0, len(heads) + 1):
                for attr in ('Mark', 'ToDoX', 'NotMark=1|Bug'):
                    more = {f'w{where}': [('misc', f'{attr}=x')]} if where else {}
                    both = 2 if len(heads) < 4 and attr == 'Mark' else 1
                    doc = j.document([x for b in range(both) for x in one(plain_words(heads, **more), bundle=str(b + 1))])
                    if doc is None:
                        continue
                    is_marked = where and attr != 'ToDoX'
                    for only, layout, color in ((0, 'classic', 0), (1, 'align', 0), (1, 'compact', 1), (0, 'align', 1)):
                        cfg = (('marked_only', only), ('layout', layout), ('color', color))
                        label = f'write.{kind} {" ".join(f"{a}={b}" for a, b in cfg)} of {show(heads)} with {attr} on word {where}'
                        text = j.output('lines', label, fn, 'write', [doc[0], C(kind), lift(cfg)], doc[1])
                        if text is None:
                            continue
                        ctx.count('drawings with marked words')
                        if kind.endswith('l'):
                            text = re.search('<pre>\n(.*)</pre>', text, re.S).group(1)
                            rows = text.count('<table>'), text.count('</table>'), text.count('<td>'), text.count('</td>')
                            shown = 0 if only and not is_marked else both
                            j.verdict('trees', fn, rows == (shown,) * 4, f'{label}: {rows[0]} rows with {rows[2]} trees are printed')
                            marks = re.findall('<mark>(.*?)</mark>', text)
                            text = strip_tags(text)
                        else:
                            marks = None
                        lines = [ln for ln in text.split('\n') if ln and ln[0] != '#']
                        if only and not is_marked:
                            j.verdict('trees', fn, not lines, f'{label}: a tree without a marked word is printed')
                            continue
                        if marks is not None and layout != 'align':
                            names = [strip_tags(m).replace('*', '').split()[0] for m in marks]
                            j.verdict('lines', fn, names == ([FORMS[where - 1]] * both if is_marked else []), f'{label}: the words {names} are highlighted')
                        if not color and layout != 'align':
                            stars = [ln.split('**')[1].split()[0] for ln in lines if '**' in ln]
                            j.verdict('lines', fn, stars == ([FORMS[where - 1]] * both if is_marked else []), f'{label}: the words {stars} are highlighted')
                        lines = [ln.replace('**', '  ') if layout == 'classic' else ln.replace('**', '') for ln in lines]
                        if layout == 'align' and not color and is_marked:
                            layout = 'compact'      # the stars take columns
                        size = len(heads) + 1
                        for b in range(both):
                            drawn(j, kind, label + (f' (tree {b + 1})' if b else ''), fn, lines[b * size:(b + 1) * size if b < both - 1 else None], heads, (),
                                  values(heads, ['form', 'upos', 'deprel']), (('layout', layout),))


SHAPES = {
    'one tree': [('1', [('', (2, 0))])],
    'two zones': [('1', [('en', (2, 0)), ('cs', (0,))]), ('2', [('cs', (0, 1)), ('en', (0, 1, 1))])],
    'languages and selectors': [('x', [('en_a', (0,)), ('en_b', (2, 0)), ('de', ()), ('cs', (0, 1))]), ('y', []), ('z', [('', (0,))])],
}


def zones_document(j, name, mark=()):
    spec = []
    n = 0
    for b, (bid, trees_) in enumerate(SHAPES[name]):
        row = []
        for t, (zone, heads) in enumerate(trees_):
            more = {f'w{i + 1}': [('misc', 'Mark=1')] for i in range(len(heads)) if (b, t) in mark}
            row.append((zone, plain_words(heads, tuple(f'w{n}x{i}' for i in range(len(heads))), **more), (), (), (('text', f'T{n}'),)))
            n += 1
        spec.append((bid, row))
    return j.document(spec)


def selected(name, zones, mark=None, whole=False):
    res = []
    for b, (bid, trees_) in enumerate(SHAPES[name]):
        chosen = [(t, z) for t, (z, _) in enumerate(trees_) if zones == 'all' or z in zones.split(',')]
        if mark is not None:
            hit = [t for t, _ in chosen if (b, t) in mark and trees_[t][1]]
            chosen = [(t, z) for t, z in chosen if t in hit or whole and hit]
        res += [bid + ('/' + z if z else '') for _, z in chosen]
    return res


def selection(ctx, j):
    for name in SHAPES:
        total = [(b, t) for b, (_, trees_) in enumerate(SHAPES[name]) for t in range(len(trees_))]
        for mark in [None] + [(x,) for x in total] + [tuple(total[::2])]:
            doc = zones_document(j, name, mark or ())
            if doc is None:
                continue
            for zones in ('all', 'en', 'cs', 'en_b,cs'):
                for kind, more in (('TextModeTrees', ()), ('TextModeTreesHtml', ()), ('TextModeTreesHtml', (('whole_bundle', 0),)),
                                   ('TextModeTreesHtml', (('zones_in_rows', 0),))):
                    cfg = (('zones', zones), ('marked_only', int(mark is not None)), ('color', 0)) + more
                    fn = j.fn(kind, 'process_bundle')
                    label = f'write.{kind} {" ".join(f"{a}={b}" for a, b in cfg)} of a document with {name}'
                    text = j.output('trees', label, fn, 'write', [doc[0], C(kind), lift(cfg)], doc[1])
                    if text is None:
                        continue
                    ctx.count('selections')
                    whole = kind.endswith('l') and not more
                    want = selected(name, zones, mark, whole)
                    got = re.findall('# sent_id = (.*)', text)
                    j.verdict('trees', fn, got == want, f'{label}: the trees {got} are printed instead of {want}')


# ---------------------------------------------------------------- relations
def opaque_words(heads, same=(), **more):
    """Words with opaque attributes; those in `same` share their form."""
    return [([('form', hole(1 if i in same else 10 + i)), ('upos', hole(30 + i)), ('xpos', hole(50 + i)), ('lemma', hole(10 + i if i == 2 else 70 + i)),
              ('deprel', hole(90 + i))] + list(more.get(f'w{i}', ())), h) for i, h in enumerate(heads, 1)]


def shapes(ctx):
    res = [h for n in range(1, 4) for h in trees(n)]
    return res + (trees(4) if ctx.tier == 'thorough' else trees(4)[::6])


def sdparse(ctx, j):
    fn = j.fn('Sdparse')
    for k, heads in enumerate(shapes(ctx)):
        n = len(heads)
        for same in ((), (1, n), tuple(range(2, n + 1))):
            feats = {'w1': [('feats', 'A=B|C=D')]}
            cfg = ((), (('always_ord', 1),), (('print_upos', 0),), (('print_feats', 1),), (('print_feats', 1), ('print_upos', 0)))[(k + len(same)) % 5]
            doc = j.document(one(opaque_words(heads, same, **feats)))
            if doc is None:
                continue
            label = f'write.Sdparse {" ".join(f"{a}={b}" for a, b in cfg)} of {show(heads)} where {list(same)} have the same form'
            text = j.output('relations', label, fn, 'write', [doc[0], C('Sdparse'), lift(cfg)], doc[1])
            if text is None:
                continue
            ctx.count('lists of relations')
            opts = dict(cfg)
            form = lambda i: hole(1 if i in same else 10 + i)
            often = lambda i: opts.get('always_ord') or sum(form(x) == form(i) for x in range(1, n + 1)) > 1
            name = lambda i: form(i) + (f'-{i}' if often(i) else '')
            word = lambda i: form(i) + ('/' + hole(30 + i) if opts.get('print_upos', 1) else '') + \
                (('' if opts.get('print_upos', 1) else '/') + '[A=B|C=D]' if opts.get('print_feats') and i == 1 else '')
            want = ['~~~ sdparse', ' '.join(map(word, range(1, n + 1)))]
            want += [f'{hole(90 + i)}({name(h)}, {name(i)})' for i, h in enumerate(heads, 1) if h]
            want += ['~~~', '', '']
            difference(j, 'relations', fn, label, text.split('\n'), want)


def readable(s):
    return ''.join(f'<{ord(c) - ord(hole(0))}>' if hole(0) <= c <= hole(999) else c for c in str(s))


def difference(j, rule, fn, label, got, want):
    bad = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), None)
    at = lambda x: readable(x[bad]) if bad is not None and bad < len(x) else 'nothing'
    j.verdict(rule, fn, bad is None, f'{label}: line {(bad or 0) + 1} is {at(got)!r} instead of {at(want)!r}')


def tikz(ctx, j):
    fn = j.fn('Tikz')
    for k, heads in enumerate(shapes(ctx)):
        n = len(heads)
        words = plain_words(heads)
        for cfg in (((), (('as_tree', 1),)) if k % 2 else ((('enhanced', 1),), (('attributes', 'ord,form'), ('print_preambule', 0)))):
            deps = tuple((i, h, f'e{i}') for i, h in enumerate(heads, 1)) + ((1, n, 'more'), (n, 0, 'top'))
            doc = j.document(one(words, (), (), (('deps', deps), ('text', 'T'), ('comment', ' c\n x = y\n'))))
            if doc is None:
                continue
            for options in ((), (('print_sent_id', 0), ('comment_attribute', 'x')), (('print_text', 0),))[:1 if n == 3 else 3]:
                opts = dict(cfg + options)
                label = f'write.Tikz {" ".join(f"{a}={b}" for a, b in cfg + options)} of {show(heads)}'
                text = j.output('relations', label, fn, 'write', [doc[0], C('Tikz'), lift(cfg + options)], doc[1])
                if text is None:
                    continue
                ctx.count('TeX pictures')
                begin, end = text.find(r'\begin{dependency}'), text.find(r'\end{dependency}')
                frame = (r'\begin{document}' in text[:begin], r'\end{document}' in text[end:])
                j.verdict('headers', fn, begin >= 0 and frame == (bool(opts.get('print_preambule', 1)),) * 2, f'{label}: the frame of the document is {frame}')
                body = text[begin:end].split('\n')
                heading = [ln for ln in body if ln.startswith('%')]
                want = ['% sent_id = 1'] * opts.get('print_sent_id', 1) + ['% text = T'] * opts.get('print_text', 1) + ['% c', '% x = y']
                difference(j, 'headers', fn, label, heading, want)
                rows = [ln for ln in body if ln.endswith('\\\\')]
                attrs = opts.get('attributes', 'form,upos,deprel' if opts.get('as_tree') else 'form,upos').split(',')
                value = values(heads, attrs)
                want = [[value(('n', i))[a] for i in range(1, n + 1)] for a in range(len(attrs))]
                got = [[x.strip() for x in row[:-2].split(r'\&')] for row in rows]
                j.verdict('lines', fn, got == want, f'{label}: the rows of words are {got} instead of {want}')
                found = relations(text[begin:end])
                expect = []
                if opts.get('as_tree'):
                    depth = lambda i: 0 if not heads[i - 1] else 1 + depth(heads[i - 1])
                    low = max(map(depth, range(1, n + 1)))
                    expect += [('node', i, i, str(low - depth(i))) for i in range(1, n + 1)]
                    for i, h in enumerate(heads, 1):
                        expect += [('guide', i, i)] + ([('draw', i, h, f'd{i}')] if h else [])
                else:
                    for i, h in enumerate(heads, 1):
                        expect.append(('edge', h, i, f'd{i}', '') if h else ('root', i, 'root', ''))
                        if opts.get('enhanced'):
                            expect += [('edge', p, c, d, 'below') if p else ('root', c, 'root', 'below') for c, p, d in deps if c == i]
                bad = next((i for i, (a, b) in enumerate(itertools.zip_longest(found, expect)) if a != b), None)
                j.verdict('relations', fn, bad is None, f'{label}: there is {found[bad:][:1] if bad is not None else ""} instead of '
                          f'{expect[bad:][:1] if bad is not None else ""}')
                trans = re.findall(r'\\deptrans\{(.*?)\}', text[begin:end])
                j.verdict('headers', fn, trans == ['y'] * ('comment_attribute' in opts), f'{label}: the translations are {trans}')


def relations(tex):
    res = []
    pattern = (r'\\depedge(\[[^]]*\])?\{(\d+)\}\{(\d+)\}\{([^}]*)\}|\\deproot(\[[^]]*\])?\{(\d+)\}\{([^}]*)\}|'
               r'\\node \(w(\d+)\) \[yshift=\\depskip\+(\d+)\\deplevel,depnode\] at \(\\wordref\{1\}\{(\d+)\}\)|'
               r'\\draw\[depguide\] \(w(\d+)\)--\(\\wordref\{1\}\{(\d+)\}\)|\\draw\[depedge\] \(w(\d+)\)--node\[deplabel\] \{([^}]*)\} \(w(\d+)\)')
    for m in re.finditer(pattern, tex):
        g = m.groups()
        below_ = lambda x: 'below' if x and 'below' in x else ''
        if g[1]:
            res.append(('edge', int(g[1]), int(g[2]), g[3], below_(g[0])))
        elif g[5]:
            res.append(('root', int(g[5]), g[6], below_(g[4])))
        elif g[7]:
            res.append(('node', int(g[7]), int(g[9]), g[8]))
        elif g[10]:
            res.append(('guide', int(g[10]), int(g[11])))
        else:
            res.append(('draw', int(g[12]), int(g[14]), g[13]))
    return res


def treex(ctx, j):
    fn = j.fn('Treex')
    ns = '{http://ufal.mff.cuni.cz/pdt/pml/}'
    for k, heads in enumerate(shapes(ctx)):
        other = (heads[::-1] if tuple(heads[::-1]) in trees(len(heads)) else (0,))
        zones = [('', 'de'), ('en', 'cs'), ('en_a', 'en_b'), ('', '')][k % 4]
        spec = [('s1', [(zones[0], opaque_words(heads), (), (), (('text', hole(5)),)), ] +
                 ([(zones[1], opaque_words(other), (), (), ())] if zones[1] else [])),
                ('s2', [(zones[0], opaque_words(heads[::-1] if other == heads[::-1] else heads), (), (), ())])]
        doc = j.document(spec)
        if doc is None:
            continue
        label = f'write.Treex of {show(heads)} in zones {zones}'
        text = j.output('relations', label, fn, 'write', [doc[0], C('Treex'), lift(())], doc[1])
        if text is None:
            continue
        ctx.count('XML documents')
        try:
            top = ET.fromstring(text.strip())
        except ET.ParseError as e:
            j.verdict('relations', fn, False, f'{label}: the output is not XML ({e})')
            continue
        bundles = top.findall(f'{ns}bundles/{ns}LM')
        got = [b.get('id') for b in bundles]
        j.verdict('trees', fn, got == ['s1', 's2'], f'{label}: the bundles are {got}')
        ids = []
        for b, (bid, rows) in zip(bundles, spec):
            found = b.findall(f'{ns}zones/{ns}zone')
            want = [tuple(z.split('_')) if '_' in z else ('und', z) for z, *_ in rows]
            got = [(z.get('language'), z.get('selector')) for z in found]
            j.verdict('trees', fn, got == want, f'{label}: the zones are {got} instead of {want}')
            for z, (_, words, _, _, extra) in zip(found, rows):
                sentence = z.find(f'{ns}sentence')
                j.verdict('headers', fn, (sentence.text if sentence is not None else None) == dict(extra).get('text'),
                          f'{label}: the sentence is not the text of the tree')
                found_nodes = []
                for t in z.findall(f'{ns}trees/{ns}a_tree'):
                    ids.append(t.get('id'))
                    nested(t, 0, ns, found_nodes, ids)
                want = [(i, h) + tuple(dict(v)[a] for a in ('form', 'lemma', 'upos', 'deprel')) for i, (v, h) in enumerate(words, 1)]
                ok = sorted(found_nodes) == sorted(want)
                bad = next((x for x in want if x not in found_nodes), next((x for x in found_nodes if x not in want), want[0]))
                j.verdict('relations', fn, ok, f'{label}: {len(found_nodes)} words are written, {readable(bad)} is missing or wrong')
                order = all([x[0] for x in found_nodes if x[1] == h] == sorted(x[0] for x in found_nodes if x[1] == h) for h in range(len(words) + 1))
                j.verdict('lines', fn, order, f'{label}: children are not in word order')
        twice = sorted({i for i in ids if ids.count(i) > 1})
        j.verdict('trees', fn, not twice, f'{label}: the identifiers {twice[:2]} are used twice')


def nested(e, head, ns, out, ids):
    for c in e.findall(f'{ns}children/{ns}LM'):
        ids.append(c.get('id'))
        n = int(c.findtext(f'{ns}ord'))
        out.append((n, head) + tuple(c.findtext(f'{ns}{a}') for a in ('form', 'lemma', 'tag', 'deprel')))
        nested(c, n, ns, out, ids)


def html(ctx, j):
    fn = j.fn('Html', 'print_doc_json')
    node_fn = j.fn('Html', 'print_node_json')
    for k, heads in enumerate(shapes(ctx)):
        zones = [('', 'de'), ('en', 'cs'), ('en_a', 'en_b'), ('', '')][k % 4]
        nospace = {'w1': [('misc', 'SpaceAfter=No')]} if k % 3 == 0 else {}
        spec = [('s1', [(zones[0], opaque_words(heads, **nospace), (), (), (('text', hole(5)),))] +
                 ([(zones[1], opaque_words((0, 1)), (), (), ())] if zones[1] else [])),
                ('s2', [(zones[0], opaque_words((2, 0)), (), (), ())])]
        doc = j.document(spec)
        if doc is None:
            continue
        label = f'write.Html of {show(heads)} in zones {zones}'
        text = j.output('relations', label, fn, 'write', [doc[0], C('Html'), lift(())], doc[1])
        if text is None:
            continue
        ctx.count('JSON documents')
        m = re.search(r'data=(.*?)\n;\n', text, re.S)
        try:
            data = json.loads(m.group(1)) if m else None
        except ValueError as e:
            j.verdict('relations', fn, False, f'{label}: the data are not JSON ({e})')
            continue
        ok = isinstance(data, list) and [list(b['zones']) for b in data] == [[z for z, *_ in rows] for _, rows in spec]
        j.verdict('trees', fn, ok, f'{label}: the bundles and zones of the data are not those of the document')
        if not ok:
            continue
        every = [x['id'] for b in data for z in b['zones'].values() for x in z['trees']['a']['nodes']]
        j.verdict('relations', fn, len(set(every)) == len(every), f'{label}: two nodes of the document have the same identifier')
        for b, (bid, rows) in zip(data, spec):
            shown, want_shown = [x[0] for x in b['desc'] if len(x) == 2 and x[1] not in ('space', 'newline', 'label')], []
            gaps, want_gaps = sum(x[1:] == ['space'] for x in b['desc']), 0
            for zone, words, _, _, extra in rows:
                z = b['zones'][zone]
                nodes = z['trees']['a']['nodes']
                heads_ = [h for _, h in words]
                n = len(words)
                j.verdict('headers', fn, z['sentence'] == dict(extra).get('text', ''), f'{label}: the sentence is not the text of the tree')
                got = [x.get('order') for x in nodes]
                j.verdict('lines', fn, got == [None] + list(range(1, n + 1)), f'{label}: the nodes are {got}')
                ids = [x['id'] for x in nodes]
                j.verdict('relations', fn, len(set(ids)) == len(ids), f'{label}: an identifier is used twice')
                if len(ids) != n + 1:
                    continue
                kids = lambda i: [c for c in range(1, n + 1) if heads_[c - 1] == i]
                for i, x in enumerate(nodes):
                    want = ids[heads_[i - 1]] if i else None
                    j.verdict('relations', node_fn, x['parent'] == want, f'{label}: the parent of {i} is {x["parent"]} instead of {want}')
                    want = ids[kids(i)[0]] if kids(i) else None
                    j.verdict('relations', node_fn if i else fn, x.get('firstson') == want, f'{label}: the first child of {i} is {x.get("firstson")} instead of {want}')
                    if i:
                        right = [c for c in kids(heads_[i - 1]) if c > i]
                        want = ids[right[0]] if right else None
                        j.verdict('relations', node_fn, x.get('rbrother') == want, f'{label}: the right sibling of {i} is {x.get("rbrother")} instead of {want}')
                        v = dict(words[i - 1][0])
                        ok = all(x['data'][a] == v[a] for a in ('form', 'lemma', 'upos', 'xpos', 'deprel')) and v['form'] in x['labels'][0] and \
                            v['upos'] in x['labels'][1] and v['deprel'] in x['labels'][2] and v['lemma'] in x['hint']
                        j.verdict('lines', node_fn, ok, f'{label}: the attributes of {i} are not those of the word')
                        want_shown.append(v['form'])
                        want_gaps += v.get('misc') != 'SpaceAfter=No'
            want_gaps += len(rows)
            j.verdict('lines', fn, shown == want_shown, f'{label}: the words above the tree are not those of the sentences')
            j.verdict('lines', fn, gaps == want_gaps, f'{label}: {gaps} spaces above the tree instead of {want_gaps}')


def sentences(ctx, j):
    for kind in ('Sentences', 'SentencesHtml'):
        fn = j.fn(kind)
        for name, zones, missing in itertools.product(SHAPES, ('all', 'en', 'cs'), ('detokenize', 'empty', 'warn_empty', 'warn_detokenize')):
            spec, want = [], []
            for b, (bid, rows) in enumerate(SHAPES[name]):
                row = []
                for t, (zone, heads) in enumerate(rows):
                    with_text = (b + t) % 2
                    forms = tuple(hole(100 * b + 10 * t + i) for i in range(len(heads)))
                    text = hole(900 + 10 * b + t)
                    row.append((zone, plain_words(heads, forms), (), (), (('text', text),) if with_text else ()))
                    if zones == 'all' or zone in zones.split(','):
                        want.append(text if with_text else '' if 'empty' in missing else ' '.join(forms))
                spec.append((bid, row))
            doc = j.document(spec)
            if doc is None:
                continue
            label = f'write.{kind} if_missing={missing} zones={zones} of a document with {name}'
            text = j.output('trees', label, fn, 'write', [doc[0], C(kind), lift((('zones', zones), ('if_missing', missing)))], doc[1])
            if text is None:
                continue
            ctx.count('lists of sentences')
            got = re.findall(r'<li id="[^"]*">(.*)</li>', text) if kind.endswith('l') else text.split('\n')[:-1]
            j.verdict('trees', fn, got == want, f'{label}: the sentences are {readable(got)} instead of {readable(want)}')


def vislcg(ctx, j):
    fn = j.fn('Vislcg')
    reader = j.p.classes['udapi.block.read.vislcg.Vislcg'].find_method('read_tree')
    for k, heads in enumerate(shapes(ctx)):
        n = len(heads)
        for tokens in [()] + [((a, b, f'm{a}'),) for a in range(1, n) for b in range(a + 1, n + 1)] + ([((1, 2, 'm1'), (3, 4, 'm3'))] if n == 4 else []):
            feats = ('_', 'A=B', 'A=B|C=D', 'A=B|C=D|E=F')
            extra = {f'w{i}': [('feats', feats[(i + k) % 4])] for i in range(1, n + 1)}
            if k % 3 == 0:
                extra['w1'].append(('lemma', 'x"(=);#|y'))
            doc = j.document(one(opaque_words(heads, **extra), (), tokens))
            if doc is None:
                continue
            label = f'write.Vislcg of {show(heads)} with tokens {[t[:2] for t in tokens]}'
            text = j.output('again', label, fn, 'write', [doc[0], C('Vislcg'), lift(())], doc[1])
            if text is None:
                continue
            ctx.count('documents written and read')
            got = j.ask('again', label, reader, 'read_again', [C(text)], None)
            if got is None:
                continue
            inside = {i: t for t in tokens for i in range(t[0], t[1] + 1)}
            value = lambda v, a: next((y for x, y in reversed(v) if x == a), None)
            words = opaque_words(heads, **extra)
            want = tuple((i, '_' if i in inside else value(v, 'form'), value(v, 'lemma'), value(v, 'xpos'), value(v, 'feats'), value(v, 'deprel'), h)
                         for i, (v, h) in enumerate(words, 1))
            mwts = tuple((f, tuple(range(a, b + 1))) for a, b, f in tokens)
            res = got[0]
            if len(res) != 1:
                j.verdict('again', reader, False, f'{label}: {len(res)} sentences are read')
                continue
            found, found_mwts = res[0]
            # the form of a word in a multiword token is not written
            same = len(found) == len(want) and all(a[0] == b[0] and a[2:] == b[2:] and (a[1] == b[1] or a[0] in inside) for a, b in zip(found, want))
            bad = next(((a, b) for a, b in itertools.zip_longest(found, want) if a != b), None)
            j.verdict('again', reader, same, f'{label}: {readable(bad and bad[0])} is read instead of {readable(bad and bad[1])}')
            j.verdict('again', reader, found_mwts == mwts, f'{label}: the multiword tokens {found_mwts} are read instead of {mwts}')


def paragraphs(ctx, j):
    """Marked comments; empty lines between documents and paragraphs."""
    for kind in ('TextModeTrees', 'TextModeTreesHtml'):
        fn = j.fn(kind)
        for comment, comments in itertools.product(('', ' ToDo = x\n', ' a\n Bug = x\n', ' a ToDo = x\n', ' ToDo=x\n'), (0, 1)):
            doc = j.document(one(plain_words((2, 0)), (), (), (('comment', comment),) if comment else ()))
            cfg = (('marked_only', 1), ('print_comments', comments), ('color', 0))
            label = f'write.{kind} {" ".join(f"{a}={b}" for a, b in cfg)} of a tree with the comment {comment!r}'
            text = None if doc is None else j.output('trees', label, fn, 'write', [doc[0], C(kind), lift(cfg)], doc[1])
            if text is None:
                continue
            ctx.count('marked comments')
            want = bool(comments and re.search('^ (ToDo|Bug) = ', comment, re.M))
            got = '# sent_id = ' in text
            j.verdict('trees', fn, got == want, f'{label}: the tree is {"printed" if got else "not printed"}')
    fn = j.fn('Sentences')
    for values_ in itertools.product((None, True, 'x'), repeat=4):
        spec = []
        for b in range(2):
            extra = [('text', f'T{b}')] + [(k, v) for k, v in zip(('newdoc', 'newpar'), values_[2 * b:]) if v is not None]
            spec += one(plain_words((2, 0)), (), (), tuple(extra), bundle=str(b + 1))
        doc = j.document(spec)
        if doc is None:
            continue
        for newdoc, newpar in itertools.product((None, 1), repeat=2):
            cfg = tuple((k, v) for k, v in (('newdoc', newdoc), ('newpar', newpar)) if v)
            label = f'write.Sentences {" ".join(f"{a}={b}" for a, b in cfg)} of trees with newdoc and newpar {values_}'
            text = j.output('headers', label, fn, 'write', [doc[0], C('Sentences'), lift(cfg)], doc[1])
            if text is None:
                continue
            ctx.count('empty lines')
            want = 'T0\n' + ('\n' if newdoc and values_[2] else '') + ('\n' if newpar and values_[3] else '') + 'T1\n'
            j.verdict('headers', fn, text == want, f'{label}: {text!r} is printed instead of {want!r}')


def missing(ctx, j):
    """Words that have a form only."""
    for heads in ((0,), (2, 0), (0, 1, 1)):
        words = [([('form', FORMS[i])], h) for i, h in enumerate(heads)]
        doc = j.document(one(words, ((1, (('form', 'E'),)),)))
        if doc is None:
            continue
        for kind, cfg in (('TextModeTrees', (('color', 0),)), ('TextModeTreesHtml', ()), ('Sdparse', ()), ('Tikz', ()), ('Tikz', (('as_tree', 1),)),
                          ('Treex', ()), ('Html', ()), ('Sentences', ()), ('SentencesHtml', ()), ('Vislcg', ())):
            fn = j.fn(kind)
            label = f'write.{kind} {" ".join(f"{a}={b}" for a, b in cfg)} of {show(heads)} without tags and relations'
            text = j.output('missing', label, fn, 'write', [doc[0], C(kind), lift(cfg)], doc[1])
            if text is None:
                continue
            ctx.count('words without tags')
            ok = re.search(r'\bNone\b', text) is None and all(re.search(rf'(?<![a-z]){f}(?![a-z])', text) for f in FORMS[:len(heads)])
            j.verdict('missing', fn, ok, f'{label}: {text!r} is printed')
