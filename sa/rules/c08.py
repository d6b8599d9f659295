"""C08: CoNLL-U text that is read and written again stays as it was."""
import itertools

from ..absint import C, Undetermined, is_c, is_raise
from ..text import LOG, Text, client, hole, holes

EXPLANATION = ('Abstract interpretation of a client program that reads CoNLL-U text and writes it again, through the reader, the '
               'document model and the writer, over text whose layout is known (line kinds, word numbers, heads, separators) and '
               'whose contents are opaque: the flow of every column, comment and number from the input to the output is '
               'followed, and the text that reaches the output is compared with the text that was read.')
TECHNIQUE = 'abstract interpretation over text with opaque contents: provenance of every column and comment from input to output'

CLIENT = '''
import io
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.write.conllu import Conllu as Writer


def once(text):
    doc = Document()
    doc.from_conllu_string(text)
    return doc.to_conllu_string()


def parts(text, **kwargs):
    docs = Reader(filehandle=io.StringIO(text), **kwargs).read_documents()
    return ''.join([doc.to_conllu_string() for doc in docs])


def looked(text):
    doc = Document()
    doc.from_conllu_string(text)
    for tree in doc.trees:
        for node in tree.descendants_and_empty:
            node.feats['A'], node.misc['B'], node.misc['SpaceAfter'], node.deps, node.feats.get('B'), 'A' in node.misc
            len(node.feats), list(node.misc.items())
        for mwt in tree.multiword_tokens:
            mwt.misc['A']
    return doc.to_conllu_string()


def options(text, **kwargs):
    doc = Document()
    doc.from_conllu_string(text)
    Writer(**kwargs).apply_on_document(doc)
'''


class Maker:
    """Texts with numbered holes."""

    def __init__(self):
        self.n = 0

    def h(self):
        self.n += 1
        return hole(self.n)

    def field(self, k):
        """A value for column k (0 = ID)."""
        h = self.h
        if k in (5, 9):
            # not in alphabetical order, and with an attribute without a value
            return f'B={h()}|A={h()}|{h()}' if k == 9 else f'B={h()}|A={h()}'
        if k == 8:
            return f'2:{h()}|0:{h()}'
        if k in (1, 2):
            return f'{h()} {h()}'
        return h()

    def word(self, i, head=None, filled=(1,), deps=None):
        cols = [str(i)] + ['_'] * 9
        for k in filled:
            cols[k] = self.field(k)
        cols[6] = str(i - 1 if head is None else head)
        if deps:
            cols[8] = deps
        return '\t'.join(cols)

    def mwt(self, a, b, filled=(1,)):
        cols = [f'{a}-{b}'] + ['_'] * 9
        for k in filled:
            cols[k] = self.field(k)
        return '\t'.join(cols)

    def empty(self, o, filled=(1,), deps='0:root'):
        cols = [o] + ['_'] * 9
        for k in filled:
            cols[k] = self.field(k)
        if deps:
            cols[8] = deps
        return '\t'.join(cols)


def sentence(lines, comments=('# sent_id = s1', '# text = t')):
    return '\n'.join(list(comments) + list(lines)) + '\n\n'


def columns():
    """Words, tokens and empty nodes with each column filled alone, left out alone, and with all and none of them filled."""
    m = Maker()
    cols = (1, 2, 3, 4, 5, 7, 8, 9)
    sets = [cols, ()] + [(k,) for k in cols] + [tuple(c for c in cols if c != k) for k in cols]
    yield 'columns of words', sentence([m.word(i, filled=f) for i, f in enumerate(sets, 1)])
    ecols = (1, 2, 3, 4, 5, 9)
    sets = [ecols, ()] + [(k,) for k in ecols] + [tuple(c for c in ecols if c != k) for k in ecols]
    yield 'columns of empty nodes', sentence([m.word(1, 0)] + [m.empty(f'1.{i}', filled=f) for i, f in enumerate(sets, 1)] + [m.word(2, 1)])
    yield 'dependencies of empty nodes', sentence([m.word(1, 0, deps='1.1:a|2:b'), m.empty('1.1', deps='1:' + m.h()), m.empty('1.2', deps=None),
                                                   m.word(2, 1, deps='0:root|1.1:' + m.h() + '|1.2:c:d')])
    lines = []
    for i, f in enumerate([(1,), (), (1, 5), (1, 9), (5, 9), (1, 5, 9)]):
        lines += [m.mwt(2 * i + 1, 2 * i + 2, f), m.word(2 * i + 1), m.word(2 * i + 2, filled=(1, 9))]
    yield 'columns of multiword tokens', sentence(lines)
    # characters that are not separators of CoNLL-U
    for name, c in (('U+2028', '\u2028'), ('U+0085', '\x85'), ('U+00A0', '\xa0'), ('U+001C', '\x1c'), ('#', '#'), ('-', '-'), ('.', '.')):
        w = [str(1)] + [f'{c}{m.h()}{c}{m.h()}{c}' for _ in range(5)] + ['0', m.h() + c, '_', f'A={m.h()}{c}']
        yield f'{name} in the columns of a word', sentence(['\t'.join(w)])
        if c not in '\x1c\x85':
            yield f'{name} in a comment', sentence([m.word(1, 0)], ['# sent_id = ' + m.h(), f'# text = {m.h()}{c}{m.h()}', f'# {m.h()} = {m.h()}{c}{m.h()}'])


def shapes(deep):
    """Layouts of multiword tokens and empty nodes, and all small trees."""
    top = 4 if deep else 3
    for n in range(1, top + 1):
        ranges = [(a, b) for a in range(1, n + 1) for b in range(a + 1, n + 1)]
        for k in range(len(ranges) + 1):
            for rs in itertools.combinations(ranges, k):
                if any(x[1] >= y[0] for x, y in zip(rs, rs[1:])):
                    continue
                for es in itertools.product((0, 1, 2) if deep and n < 4 else (0, 2), repeat=n + 1) if not k or n > 2 or deep else [(1,) * (n + 1)]:
                    m = Maker()
                    lines = []
                    for i in range(n + 1):
                        if i:
                            lines += [m.mwt(a, b) for a, b in rs if a == i]
                            lines.append(m.word(i))
                        lines += [m.empty(f'{i}.{j}') for j in range(1, es[i] + 1)]
                    yield f'{n} words, tokens {rs}, empty nodes {es}', sentence(lines)
    for n in range(2, top + 1):
        for heads in itertools.product(range(n + 1), repeat=n):
            if tree(heads):
                m = Maker()
                yield f'heads {heads}', sentence([m.word(i, h, (1, 7)) for i, h in enumerate(heads, 1)])
    m = Maker()
    yield 'twelve empty nodes', sentence([m.word(1, 0, deps='1.10:a|1.2:b')] + [m.empty(f'1.{j}') for j in range(1, 13)] + [m.word(2, 1)])
    yield 'words after the ninth', sentence([m.word(i) for i in range(1, 10)] + [m.empty('9.1'), m.mwt(10, 12)] + [m.word(i) for i in range(10, 13)])
    for name, lines in (('an empty sentence', []), ('an empty sentence with an empty node', [m.empty('0.1')])):
        yield name, sentence(lines + ['1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes'])


def tree(heads):
    for i in range(1, len(heads) + 1):
        seen = set()
        while i:
            if i in seen:
                return False
            seen.add(i)
            i = heads[i - 1]
    return True


KINDS = {
    'sent_id': lambda m: '# sent_id = ' + m.h(),
    'text': lambda m: f'# text = {m.h()} {m.h()}',
    'newdoc': lambda m: '# newdoc id = ' + m.h(),
    'newpar': lambda m: '# newpar',
    'newpar id': lambda m: f'# newpar id = {m.h()}',
    'newdoc without id': lambda m: '# newdoc',
    'comment': lambda m: f'# {m.h()} = {m.h()}',
    'comment without value': lambda m: f'# {m.h()} {m.h()}',
    'comment without a space': lambda m: f'#{m.h()}',
    'similar to text': lambda m: f'# text_en = {m.h()}',
    'similar to sent_id': lambda m: f'# sent_id_old = {m.h()}',
    'similar to newdoc': lambda m: f'# newdoc_old = {m.h()}',
    'json': lambda m: f'# json_{m.h()} = {{"a": ["{m.h()}", 1], "b": null}}',
    'global.Entity': lambda m: '# global.Entity = ' + m.h(),
}


def comments(deep):
    for k in range(0, 4 if deep else 3):
        for kinds in itertools.permutations(KINDS, k):
            # newdoc and newpar may be given only once; global.Entity belongs to newdoc
            if 'newpar' in kinds and 'newpar id' in kinds or 'newdoc' in kinds and 'newdoc without id' in kinds:
                continue
            if 'global.Entity' in kinds and not ('newdoc' in kinds[:kinds.index('global.Entity')] or
                                                 'newdoc without id' in kinds[:kinds.index('global.Entity')]):
                continue
            bases = [kinds]
            if 'sent_id' not in kinds and 'text' not in kinds:
                r = kinds + ('sent_id', 'text')
                bases += [kinds[:i] + ('sent_id', 'text') + kinds[i:] for i in range(len(kinds) + 1)]
                if k == 2:
                    bases += [(kinds[0], 'sent_id', kinds[1], 'text'), (kinds[0], 'text', kinds[1], 'sent_id'), ('sent_id', kinds[0], 'text', kinds[1])]
                    if deep:
                        bases += list(itertools.permutations(r))
            for ks in dict.fromkeys(bases):
                if 'global.Entity' in ks and 'newdoc' not in ks[0]:
                    continue
                m = Maker()
                yield 'comments ' + (', '.join(ks) or 'missing'), [KINDS[x](m) for x in ks], [m.word(1, 0)]
    m = Maker()
    for cols in ('ID FORM', m.h()):
        yield 'global.columns first', [f'# global.columns = {cols}', '# newdoc id = ' + m.h(), '# sent_id = ' + m.h(), '# text = ' + m.h()], [m.word(1, 0)]


def documents():
    """Several sentences."""
    m = Maker()

    def s(i, *extra, zone=''):
        return sentence([m.word(1, 0), m.empty('1.1'), m.mwt(2, 3), m.word(2), m.word(3, 1)], list(extra) + [f'# sent_id = {i}{zone}', '# text = ' + m.h()])
    yield 'three sentences', s('a') + s('b') + s('c')
    yield 'two documents', s('a', '# newdoc id = ' + m.h(), '# global.Entity = e-t') + s('b', '# newpar') + s('c', '# newdoc', '# global.Entity = e-t') + s('d')
    yield 'zones', s('a', zone='/en') + s('a', zone='/cs') + s('b', zone='/en') + s('b', zone='/cs')
    yield 'zones and no zone', s('a') + s('a', zone='/x') + s('b') + s('c', zone='/x')
    yield 'holes as identifiers', s(m.h(), '# newdoc id = ' + m.h()) + s(m.h()) + s(m.h(), '# newdoc id = ' + m.h())
    yield 'numbers as identifiers', s('1') + s('2') + s('5')
    yield 'attributes of the document', '# doc_json_' + m.h() + ' = {"a": "' + m.h() + '"}\n' + s('a') + s('b')


MODES = ({}, {'bundles_per_doc': C(1)}, {'bundles_per_doc': C(2)}, {'split_docs': C(True)}, {'max_docs': C(9)},
         {'sent_id_filter': C('.')}, {'merge': C(True)})


def expected(comment_lines, words):
    """The lines in the order in which they are written: JSON comments last, sorted."""
    json = sorted(c for c in comment_lines if c.startswith('# json_'))
    return [c for c in comment_lines if not c.startswith('# json_')] + json + words


def show(text):
    return ''.join(f'⟨{ord(c) - 0xE000}⟩' if holes(c) else c for c in text)


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.steps = 150000000 if ctx.tier == 'thorough' else 12000000
        client(self.p, CLIENT)
        self.writer = self.p.classes['udapi.block.write.conllu.Conllu'].find_method('process_tree')
        self.reader = self.p.classes['udapi.block.read.conllu.Conllu'].find_method('read_tree_from_lines')

    def run(self, label, func, text, kwargs=(), stdout=False):
        """List of (output, state), or None."""
        self.ctx.count('texts enumerated')
        if self.steps <= 0:
            self.ctx.undet(f'{label}: the budget of this check is used up')
            return None
        it = Text(self.p, budget=40000)
        try:
            res = it.call_func(self.p.functions['@client.' + func], [C(text)], dict(kwargs), it.start(), it.node)
        except Undetermined as e:
            self.ctx.undet(f'{label}: {e}')
            return None
        except RecursionError:
            self.ctx.undet(f'{label}: recursion')
            return None
        finally:
            self.steps -= it.steps
        self.ctx.count('texts followed')
        return [(it.output(s) if stdout and not is_raise(v) else v, s) for v, s in res]

    def judge(self, rule, label, func, text, want=None, kwargs=(), stdout=False, added=()):
        """want: a predicate on the list of output lines that returns a message, or None for equality with the text."""
        ctx = self.ctx
        res = self.run(label, func, text, kwargs, stdout)
        for v, s in res or ():
            if s.tainted:
                ctx.undet(f'{label}: {s.tainted[0]}')
                continue
            if is_raise(v):
                if s.facts:
                    ctx.undet(f'{label}: raises {v[1][1]} on some path')
                else:
                    ctx.find(rule, self.reader.module.path, v[2], self.reader.qual, f'{label}: reading or writing fails with {v[1][1]}')
                continue
            if v[0] == 'cat' and any(not is_c(x) and not (x[0] == 't' and x[1] in ('inside', 'slice', 'char', 'regex_sub')) for x in v[1]) or \
                    not is_c(v) and v[0] != 'cat':
                ctx.undet(f'{label}: unknown output')
                continue
            if not is_c(v):
                bad = 'the content of ' + '; '.join(show(x[2][2])[:40] for x in v[1] if not is_c(x) and is_c(x[2])) + ' is changed on the way'
                got = None
            else:
                got = v[2]
                bad = None
                if want is not None:
                    bad = want(got.split('\n'))
                elif got != text:
                    bad = self.difference(text.split('\n'), got.split('\n'))
            if bad is None:
                ctx.ok(f'{label}: written as it was read')
            elif s.facts:
                ctx.undet(f'{label}: differs on a path with unknown conditions')
            else:
                site = self.site(s, got, bad)
                ctx.find(rule, site[0].module.path, site[1], site[0].qual, f'{label}: {bad[1] if isinstance(bad, tuple) else bad}',
                         (show(got or '').split('\n') if got else ()))

    def difference(self, want, got):
        for i, (a, b) in enumerate(itertools.zip_longest(want, got)):
            if a != b:
                if a is None:
                    return i, f'the line {show(b)!r} is added'
                if b is None:
                    return i, f'the line {show(a)!r} is lost'
                return i, f'the line {show(a)!r} becomes {show(b)!r}'
        return None

    def site(self, s, got, bad):
        """(function, line) that printed the first line that differs."""
        line = bad[0] if isinstance(bad, tuple) else 0
        done = 0
        for _, key, lineno, text in s.heap[LOG].items:
            done += text[2].count('\n') if is_c(text) else 1
            if done > line:
                return self.p.functions[key], lineno
        return self.writer, self.writer.lineno


def run(ctx):
    ctx.rule('same-columns', 'every column of words, empty nodes and multiword tokens is written as it was read')
    ctx.rule('same-layout', 'all lines are written in the order of the input: tokens before their words, empty nodes after theirs')
    ctx.rule('same-comments', 'every comment is written as it was read and in the same place (JSON comments last)')
    ctx.rule('same-documents', 'sentences, identifiers, zones and document boundaries survive every way of reading')
    ctx.rule('options', 'options of the writer leave out what they name and nothing else')
    deep = ctx.tier == 'thorough'
    j = Judge(ctx)
    for label, text in columns():
        for func in ('once', 'looked'):
            j.judge('same-columns', label + (' after they were looked at' if func == 'looked' else ''), func, text)
        j.judge('same-columns', label + ', read line by line', 'parts', text, kwargs={'split_docs': C(True)})
    for label, text in shapes(deep):
        j.judge('same-layout', label, 'once', text)
        if deep:
            j.judge('same-layout', label, 'looked', text)
    for label, cs, words in comments(deep):
        want = expected(cs, words)

        def check(lines, want=want, cs=cs):
            missing = {n for n in ('sent_id', 'text') if not any(c.startswith(f'# {n} =') for c in cs)}
            added = [x for x in lines if x not in want and any(x.startswith(f'# {n} = ') for n in missing)]
            if len(added) > len(missing):
                return f'lines {added} are added'
            return j.difference(want + ['', ''], [x for x in lines if x not in added])
        j.judge('same-comments', label, 'once', sentence(words, cs), want=check)
    for label, text in documents():
        for kw in MODES:
            j.judge('same-documents', label + (f' with {", ".join(kw)}' if kw else ''), 'parts', text, kwargs=kw)
    options(ctx, j)
    ctx.floor('texts enumerated', 400)


def options(ctx, j):
    m = Maker()
    ids = ['# newdoc id = ' + m.h(), '# newpar', '# sent_id = ' + m.h()]
    other = [f'# {m.h()} = {m.h()}', f'# text_en = {m.h()}']
    text = ['# text = ' + m.h()]
    empty = ['1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes']
    for words, none in (([m.word(1, 0), m.word(2, 1)], False), (empty, True)):
        for order in itertools.permutations((ids, other[:1], text, other[1:])):
            cs = [c for part in order for c in part]
            for a, b, c in itertools.product((True, False), repeat=3):
                keep = [x for x in cs if (a or x not in ids) and (b or x not in text)] + words + ['', '']
                if none and not c:
                    keep = ['']
                j.judge('options', f'print_sent_id={int(a)} print_text={int(b)} print_empty_trees={int(c)}', 'options', sentence(words, cs),
                        want=lambda lines, keep=keep: j.difference(keep, lines), stdout=True,
                        kwargs={'print_sent_id': C(a), 'print_text': C(b), 'print_empty_trees': C(c)})
