"""C07: tokens, spacing and the text of a sentence say the same."""
import ast
import difflib
import itertools
import re

from ..absint import B, C, Obj, T, is_c, is_raise
from ..system import System
from ..text import FIRST, client, hole, holes
from .c09 import Judge, show

EXPLANATION = ('Abstract interpretation of the blocks that cut text to sentences and tokens or align tokens with it (tokenizers, segmenters, '
               'SpaceAfter heuristics, ComplyWithText, multiword tokens, splitting and joining of tokens and sentences), on every arrangement '
               'of opaque letters, spaces and punctuation up to a length; the text that the tokens spell afterwards is compared with the text '
               'that the sentence had.')
TECHNIQUE = 'abstract interpretation with constant shapes of text over opaque letters, compared with the text that was given'

CLIENT = '''
import io
from udapi.core.document import Document
from udapi.block.ud.addmwt import AddMwt
from udapi.block.read.addtext import AddText


class Analysis(AddMwt):
    def __init__(self, analysis, **kwargs):
        super().__init__(**kwargs)
        self.analysis = analysis

    def multiword_analysis(self, node):
        return dict(self.analysis) if node.misc['Split'] else None


def raw(texts, zone=''):
    doc = Document()
    for text in texts:
        doc.create_bundle().create_tree(zone).text = text
    return doc


def document(trees):
    doc = Document()
    for words, tokens, text in trees:
        root = doc.create_bundle().create_tree()
        for values, misc, _ in words:
            node = root.create_child()
            for k, v in values:
                setattr(node, k, v)
            for k, v in misc:
                node.misc[k] = v
        nodes = [root] + list(root.descendants)
        for i, (_, _, h) in enumerate(words, 1):
            if h > i:
                nodes[i].parent = nodes[h]
        for i, (_, _, h) in enumerate(words, 1):
            nodes[i].parent = nodes[h]
        for first, last, form, misc in tokens:
            mwt = root.create_multiword_token(nodes[first:last + 1], form=form)
            for k, v in misc:
                mwt.misc[k] = v
        root.text = text
    return doc


def view(doc):
    res = []
    for bundle in doc.bundles:
        for root in bundle.trees:
            res.append((root.text, root.compute_text() if root.descendants else None,
                        tuple([(n.ord, n.form, n.parent.ord, n.deprel, n.misc['SpaceAfter'], n.misc['SpacesAfter'],
                                n.misc['SpacesBefore'], n.misc['Mark']) for n in root.descendants]),
                        tuple([(m.form, tuple([w.ord for w in m.words]), m.misc['SpaceAfter']) for m in root.multiword_tokens]),
                        root.comment or '', bundle.number, bundle.bundle_id, root.newpar or False))
    return res


def process(doc, cls, kwargs):
    before = view(doc)
    cls(**dict(kwargs)).run(doc)
    return [before, view(doc)]


def add_text(doc, text, kwargs):
    before = view(doc)
    AddText(filehandle=io.StringIO(text), **dict(kwargs)).process_document(doc)
    return [before, view(doc)]
'''
TEXT, COMPUTED, WORDS, MWTS, COMMENT, NUMBER, BUNDLE, NEWPAR = range(8)
PUNCT = '!"#%&\'()*,\\-./:;?@\\[\\\\\\]_{}¡§«¶·»¿‐-‧‹›…„“”'
LETTER = 0x4E00          # holes are letters without case


def real(s):
    return ''.join(chr(ord(c) - FIRST + LETTER) if holes(c) else c for c in s)


def back(s):
    if isinstance(s, tuple):
        return tuple(map(back, s))
    return ''.join(chr(ord(c) - LETTER + FIRST) if LETTER <= ord(c) < LETTER + 1000 else c for c in s) if isinstance(s, str) else s


class Letters(System):
    """Every hole is one letter, different holes are different letters."""
    letters = True

    def regex(self, pattern, name, args, kwargs, st, node):
        pat = pattern[2].replace('\\p{P}', f'[{PUNCT}]' if '[' not in pattern[2] else PUNCT)
        if not kwargs and args and all(is_c(a) and isinstance(a[2], (str, int)) for a in args):
            if name in ('match', 'search', 'fullmatch'):
                r = getattr(re, name)(pat, real(args[0][2]))
                return [(C(None) if r is None else T('found', C(pat), name, args[0]), st)]
            if name == 'finditer':
                n = len(list(re.finditer(pat, real(args[0][2]))))
                return [(('seq', tuple(T('found', C(pat), ('iter', i), args[0]) for i in range(n))), st)]
            if name in ('findall', 'sub', 'split'):
                r = getattr(re, name)(pat, *[real(a[2]) if isinstance(a[2], str) else a[2] for a in args])
                if isinstance(r, str):
                    return [(C(back(r)), st)]
                s = st.fork()
                items = tuple(('tup', tuple(map(C, back(x)))) if isinstance(x, tuple) else C(back(x)) for x in r)
                return [(s.new(f'RE{node.lineno}:{node.col_offset}', Obj('list', items=items, fresh=True)), s)]
        return super().regex(C(pat), name, args, kwargs, st, node)

    def call_ext(self, name, args, kwargs, st, node):
        if name.startswith('regex.'):
            return self.call_ext('re.' + name[6:], args, kwargs, st, node)
        if name == 'difflib.SequenceMatcher' and len(args) == 3 and all(map(is_c, args)) and all(map(is_c, kwargs.values())):
            return [(T('matcher', *args[1:], *[x for k in sorted(kwargs) for x in (C(k), kwargs[k])]), st)]
        if name == 'logging.getLogger':
            return [(T('sys', 'logger'), st)]
        return super().call_ext(name, args, kwargs, st, node)

    def getattr(self, v, name, st, node):
        if v[0] == 't' and v[1] == 'matcher':
            return [(('bm', v, name), st)]
        return super().getattr(v, name, st, node)

    def call_method(self, v, name, args, kwargs, st, node, *rest):
        if v[0] == 't' and v[1] == 'found' and name in ('group', 'groups', 'start', 'end', 'span') and not kwargs and all(map(is_c, args)):
            m = self.found((*v[:4], C(real(v[4][2]))))
            try:
                r = back(getattr(m, name)(*[a[2] for a in args]))
            except IndexError:
                return [(self.exc('IndexError', node), st)]
            return [(lift(r), st)]
        if v[0] == 't' and v[1] == 'matcher' and name in ('get_opcodes', 'get_matching_blocks', 'ratio') and not args:
            a, b, *kw = [x[2] for x in v[2:]]
            r = getattr(difflib.SequenceMatcher(None, a, b, **dict(zip(kw[::2], kw[1::2]))), name)()
            if name == 'ratio':
                return [(C(r), st)]
            s = st.fork()
            items = tuple(('tup', tuple(map(C, x))) for x in r)
            return [(s.new(f'OP{node.lineno}:{node.col_offset}', Obj('list', items=items, fresh=True)), s)]
        if v[0] == 't' and v[1] == 'sys' and name == 'isEnabledFor':
            return [(B(False), st)]
        if is_c(v) and isinstance(v[2], str) and name == 'translate' and len(args) == 1:
            table = self.table(args[0], st)
            if table is not None:
                return [(C(v[2].translate(table)), st)]
        if is_c(v) and isinstance(v[2], str) and holes(v[2]) and name in ('isalpha', 'isalnum', 'isspace', 'isdigit') and not args:
            return [(B(getattr(real(v[2]), name)()), st)]
        return super().call_method(v, name, args, kwargs, st, node, *rest)

    def table(self, v, st):
        """The translation table that is an attribute of a class or a constant of a module."""
        if v[0] == 's' and isinstance(v[1], str):
            owner, _, name = v[1].rpartition('.')
            expr = self.p.classes[owner].class_attrs.get(name) if owner in self.p.classes else None
            if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr == 'maketrans':
                try:
                    return str.maketrans(*map(ast.literal_eval, expr.args))
                except (ValueError, TypeError):
                    return None
        return None

    def call_builtin(self, name, args, kwargs, st, node, fr):
        if name == 'len' and len(args) == 1 and is_c(args[0]) and isinstance(args[0][2], str):
            return [(C(len(args[0][2])), st)]
        return super().call_builtin(name, args, kwargs, st, node, fr)

    def getitem(self, v, k, st, node):
        if is_c(v) and isinstance(v[2], str) and is_c(k) and isinstance(k[2], int) and -len(v[2]) <= k[2] < len(v[2]):
            return [(C(v[2][k[2]]), st)]
        return super().getitem(v, k, st, node)


def lift(v):
    return ('tup', tuple(map(lift, v))) if isinstance(v, (tuple, list)) else v if isinstance(v, Cls) else C(v)


class Cls(tuple):
    """A class as a value."""


def squeeze(text):
    return ' '.join(text.split())


def read(s):
    """The text with its letters named a, b, c."""
    return ''.join('abcdefghijklmnopqrstuvwxyz'[ord(c) - FIRST] if holes(c) else c for c in s) if isinstance(s, str) else s


def strings(alphabet, n, letter='x'):
    """All texts of n characters; the letters are numbered from the left."""
    for pick in itertools.product(alphabet, repeat=n):
        k = itertools.count()
        yield ''.join(hole(next(k)) if c == letter else c for c in pick)


class Align(Judge):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.steps *= 4
        client(ctx.p, CLIENT)

    def interpreter(self):
        return Letters(self.p, budget=900000)

    def cls(self, kind):
        return self.p.classes['udapi.block.' + kind.rpartition('.')[0] + '.' + kind.rpartition('.')[2].lower() + '.' + kind.rpartition('.')[2]]

    def fn(self, kind):
        c = self.cls(kind)
        for m in ('process_tree', 'process_node', 'process_document'):
            f = c.find_method(m)
            if f is not None and not f.qual.startswith('udapi.core.'):
                return f
        return c.find_method('process_document')

    def run(self, rule, kind, label, doc, kwargs=(), func='process', cls=None):
        """(views before, views after), or None."""
        fn = self.fn(kind)
        base = self.call(label, *doc, None)
        if base is None or is_raise(base[0]):
            if base is not None:
                self.ctx.undet(f'{label}: the sentence cannot be made: {base[0][1][1]}')
            return None
        got = self.ask(rule, label, fn, func, [base[0], Cls(cls or ('cls', self.cls(kind).qual)), lift(tuple(dict(kwargs).items()))], base[1])
        self.ctx.count('documents processed')
        if got:
            self.ctx.ok(label)
        return got[0] if got else None

    def wrong(self, rule, kind, msg):
        fn = self.fn(kind)
        self.ctx.find(rule, fn.module.path, fn.lineno, fn.qual, msg)


def run(ctx):
    j = Align(ctx)
    deep = ctx.tier == 'thorough'
    parts = (tokenize, sentences, spacing, heuristic, joining, adding, adding_text, segment, merge)
    n = 12 if deep else 6
    ctx.parallel([lambda k=k: comply(ctx, j, deep, k, n) for k in range(n)] + [lambda part=part: part(ctx, j, deep) for part in parts])
    ctx.floor('documents processed', 100)


# ------------------------------------------------------------------ tokens of raw text
ESCAPES = {'\\s': ' ', '\\t': '\t', '\\r': '\r', '\\n': '\n'}


def unescape(s):
    return re.sub(r'\\[strn]', lambda m: ESCAPES[m[0]], s)


def tokenize(ctx, j, deep):
    ctx.rule('tokenize', 'tokenizers cut the text to its tokens and the tokens spell the text, with every space when keep_spaces is set')
    for n in range(1, 7 if deep else 6):
        for alphabet, kinds in (('x \t', ('tokenize.OnWhitespace',)), ('x .', ('tokenize.Simple', 'tokenize.OnWhitespace'))):
            if n == 5 and not deep and alphabet == 'x .':
                continue
            texts = [t for t in strings(alphabet, n) if t.strip()]
            for kind in kinds:
                for kwargs in ({}, {'keep_spaces': True}):
                    for k in range(0, len(texts), 60):
                        chunk = texts[k:k + 60]
                        label = f'{kind}({kwargs}) on {len(chunk)} texts of {n} characters'
                        got = j.run('tokenize', kind, label, ('raw', [lift(chunk), C('')]), kwargs)
                        if got:
                            for text, view in zip(chunk, got[1]):
                                check_tokens(j, kind, kwargs, text, view)


def check_tokens(j, kind, kwargs, text, view):
    words = view[WORDS]
    if kind.endswith('Simple'):
        want = back(tuple(re.findall(r'\w+|[^\w\s]', real(text))))
    else:
        want = tuple(text.split())
    forms = tuple(w[1] for w in words)
    label = f'{kind}({kwargs}) on {read(text)!r}'
    if forms != want:
        return j.wrong('tokenize', kind, f'{label}: the words are {list(map(read, forms))}')
    if tuple(w[0] for w in words) != tuple(range(1, len(words) + 1)):
        return j.wrong('tokenize', kind, f'{label}: the words have numbers {[w[0] for w in words]}')
    if view[TEXT] != text:
        return j.wrong('tokenize', kind, f'{label}: the text becomes {read(view[TEXT])!r}')
    if squeeze(view[COMPUTED]) != squeeze(text) and not (kwargs and words[-1][4] == 'No' and view[COMPUTED] == squeeze(text)):
        return j.wrong('tokenize', kind, f'{label}: the words spell {read(view[COMPUTED])!r}')
    if kwargs:
        spelled = unescape(words[0][6])
        for w in words:
            spelled += w[1] + ('' if w[4] == 'No' else unescape(w[5]) if w[5] else ' ')
        if spelled != text:
            j.wrong('tokenize', kind, f'{label}: the words and their spaces spell {read(spelled)!r}')
    elif any(w[5] or w[6] for w in words) or words[-1][4]:
        j.wrong('tokenize', kind, f'{label}: spaces are marked on {[(read(w[1]), w[4:7]) for w in words]}')
    return None


# ------------------------------------------------------------------ sentences of raw text
def segment(ctx, j, deep):
    ctx.rule('segment', 'segment.Simple cuts the text between sentences and keeps the rest of it')
    kind = 'segment.Simple'
    tokens = ('ab', 'Ab', 'ab.', 'A.', 'ab!)', '"Ab', '.', '', 'e.g.')
    inner = {'ab.': True, 'ab!)': True, 'ab': False, 'Ab': False, 'A.': False, 'e.g.': False}
    texts = [' '.join(t) for n in range(1, 4) for t in itertools.product(tokens, repeat=n)]
    if not deep:
        texts = texts[:90] + texts[90::3]
    texts += ['ab. Ab. "Ab. Ab? Ab', 'Ab! Ab.  Ab. Ab. A. Ab. ', 'Ab. Ab. Ab.']
    for kwargs in ({}, {'keep_spaces': True}):
        for k in range(0, len(texts), 8):
            chunk = texts[k:k + 8]
            label = f'{kind}({kwargs}) on {chunk!r}'
            got = j.run('segment', kind, label, ('raw', [lift(chunk), C('')]), kwargs)
            if not got:
                continue
            whole = [v[TEXT] for v in got[1]]
            want = chunk if kwargs else [squeeze(t) for t in chunk]
            if [v[NUMBER] for v in got[1]] != list(range(1, len(got[1]) + 1)):
                j.wrong('segment', kind, f'{label}: the sentences have numbers {[v[NUMBER] for v in got[1]]}')
            if len({v[BUNDLE] for v in got[1]}) != len(got[1]):
                j.wrong('segment', kind, f'{label}: the sentences are called {[v[BUNDLE] for v in got[1]]}')
            joined = ('' if kwargs else ' ').join(whole)
            if (joined if kwargs else squeeze(joined)) != ('' if kwargs else ' ').join(t for t in want if kwargs or t):
                j.wrong('segment', kind, f'{label}: the sentences are {whole}')
    for first, cut in inner.items():
        for second in ('Ab', '"Ab', 'ab', '12'):
            text = first + ' ' + second
            got = j.run('segment', kind, text, ('raw', [lift([text]), C('')]))
            if got and len(got[1]) != 1 + (cut and second in ('Ab', '"Ab')):
                j.wrong('segment', kind, f'{text!r} becomes {[v[TEXT] for v in got[1]]}')


def words_of(forms, heads=None, nospace=(), marks=()):
    """Words of a client document."""
    n = len(forms)
    heads = heads or (0,) + (1,) * (n - 1)
    return tuple(((('form', f), ('deprel', 'root' if not h else 'dep')),
                  ((('SpaceAfter', 'No'),) if i in nospace else ()) + ((('Mark', marks[i]),) if i in dict(marks) else ()
                                                                      if not isinstance(marks, dict) else ()), h)
                 for i, (f, h) in enumerate(zip(forms, heads), 1))


def spell(forms, nospace):
    return ''.join(f + ('' if i in nospace else ' ') for i, f in enumerate(forms, 1)).rstrip(' ')


def subsets(items):
    items = list(items)
    return [c for k in range(len(items) + 1) for c in itertools.combinations(items, k)]


def merge(ctx, j, deep):
    ctx.rule('merge', 'segment.Merge appends the words of the next sentence in their order and spells them again')
    kind = 'segment.Merge'
    for sizes in itertools.product((1, 2), repeat=3):
        for ends in itertools.product((False, True), repeat=3):
            k = itertools.count()
            trees, forms = [], []
            for size, end in zip(sizes, ends):
                fs = [hole(next(k)) for _ in range(size)]
                if end:
                    fs[-1] += ';'
                forms.append(fs)
                trees.append((words_of(fs, heads=(0,) if size == 1 else (2, 0)), (), spell(fs, ())))
            label = f'{kind} of {[list(map(read, f)) for f in forms]}'
            got = j.run('merge', kind, label, ('document', [lift(trees)]))
            if got:
                want, cur = [], list(forms[0])
                for fs, end in zip(forms[1:], ends):
                    if end:
                        cur += fs
                    else:
                        want.append(cur)
                        cur = list(fs)
                want.append(cur)
                check_sentences(j, 'merge', kind, label, want, got[1])


def check_sentences(j, rule, kind, label, want, views):
    forms = [[w[1] for w in v[WORDS]] for v in views]
    if forms != want:
        j.wrong(rule, kind, f'{label}: the sentences are {[list(map(read, f)) for f in forms]}')
    elif [v[TEXT] for v in views] != [v[COMPUTED] for v in views]:
        j.wrong(rule, kind, f'{label}: the texts are {[read(v[TEXT]) for v in views]}')
    elif [v[NUMBER] for v in views] != list(range(1, len(views) + 1)):
        j.wrong(rule, kind, f'{label}: the sentences have numbers {[v[NUMBER] for v in views]}')
    elif any(tuple(w[0] for w in v[WORDS]) != tuple(range(1, len(v[WORDS]) + 1)) for v in views):
        j.wrong(rule, kind, f'{label}: the words have numbers {[[w[0] for w in v[WORDS]] for v in views]}')
    else:
        return True
    return False


# ------------------------------------------------------------------ spaces
def letters(sizes):
    k = itertools.count()
    return [''.join(hole(next(k)) for _ in range(s)) for s in sizes]


def spacing(ctx, j, deep):
    ctx.rule('spacing', 'ud.SetSpaceAfterFromText and ud.GoeswithFromText make the tokens spell the text of the sentence')
    kind = 'ud.SetSpaceAfterFromText'
    for n in range(1, 5 if deep else 4):
        for sizes in itertools.product((1, 2), repeat=n):
            forms = letters(sizes)
            for there in subsets(range(1, n + 1)) if n < 4 else [()]:
                trees, texts = [], []
                for gaps in itertools.product(('', ' ', '  '), repeat=n - 1):
                    text = ''.join(f + g for f, g in zip(forms, gaps + ('',)))
                    texts.append(text)
                    trees.append((words_of(forms, nospace=there), (), text))
                    if n == 3 and sum(sizes) == 4 and not gaps[0]:
                        texts.append(text)
                        trees.append((words_of(['w', 'v', forms[2]], nospace=there), ((1, 2, forms[0] + forms[1], ()),), text))
                label = f'{kind} of {list(map(read, forms))} with SpaceAfter=No at {list(there)}'
                got = j.run('spacing', kind, label, ('document', [lift(trees)]))
                for text, before, view in zip(texts, *got) if got else ():
                    if view[TEXT] != text or view[COMPUTED] != squeeze(text):
                        j.wrong('spacing', kind, f'{label}: the text {read(text)!r} is spelled {read(view[COMPUTED])!r}')
                    elif [w[:3] for w in view[WORDS]] != [w[:3] for w in before[WORDS]]:
                        j.wrong('spacing', kind, f'{label}: the words become {view[WORDS]}')
    kind = 'ud.GoeswithFromText'
    for sizes in [s for n in range(1, 4) for s in itertools.product((1, 2, 3), repeat=n) if sum(s) < (7 if deep else 5)]:
        forms = letters(sizes)
        whole = ''.join(forms)
        ends = list(itertools.accumulate(sizes))[:-1]
        trees, texts = [], []
        for spaces in subsets(range(1, len(whole))):
            text = ''.join(c + (' ' if i in spaces else '') for i, c in enumerate(whole, 1))
            texts.append(text)
            trees.append((words_of(forms, nospace=(1,)), (), text))
        for kwargs in ({}, {'keep_lemma': True}):
            label = f'{kind}({kwargs}) of {list(map(read, forms))}'
            got = j.run('spacing', kind, label, ('document', [lift(trees)]), kwargs)
            for text, before, view in zip(texts, *got) if got else ():
                cut = sorted({0, *ends, *[i for i in range(1, len(whole)) if text.split(' ') and
                                          i in set(itertools.accumulate(map(len, text.split(' '))))], len(whole)})
                want = [whole[a:b] for a, b in zip(cut, cut[1:])]
                if view[TEXT] != text or view[COMPUTED] != text:
                    j.wrong('spacing', kind, f'{label}: the text {read(text)!r} is spelled {read(view[COMPUTED])!r}')
                elif [w[1] for w in view[WORDS]] != want:
                    j.wrong('spacing', kind, f'{label}: the words of {read(text)!r} are {[read(w[1]) for w in view[WORDS]]}')
                else:
                    starts = dict(zip(cut, view[WORDS]))
                    for c, w in starts.items():
                        if c and c not in ends and (w[3] != 'goeswith' or w[2] != starts[max(e for e in [0] + ends if e < c)][0]):
                            j.wrong('spacing', kind, f'{label}: {read(w[1])} of {read(text)!r} is attached to {w[2]} as {w[3]}')


# ------------------------------------------------------------------ ComplyWithText
def comply(ctx, j, deep, part=0, parts=1):
    ctx.rule('comply', 'after ud.ComplyWithText the tokens spell the text, no word gets lost and a replaced text is kept in a comment')
    kind = 'ud.ComplyWithText'
    x, y, z = hole(0), hole(1), hole(2)
    pool = [x, y, x + y, '.', x + '-' + y]
    lists = [f for n in range(1, 4) for f in itertools.product(pool, repeat=n)
             if n < 3 or all(a != b for a, b in zip(f, f[1:])) and not any('-' in w for w in f)]
    texts = [''.join(t) for n in range(1, 6 if deep else 5) for t in itertools.product([x, y, '.', ' '], repeat=n)]
    texts = [t for t in texts if t == t.strip()]
    if not deep:
        texts = [t for t in texts if len(t) < 3] + [t for t in texts if len(t) > 2][::7]
    texts += [x + ' ' + y + z, x + '  ' + y, ' ' + x + y, x + ' - ' + y, '( ' + x + ' )', x + '. . .']
    options = [{}, {'fix_text': False}, {'prefer_mwt': False}, {'allow_goeswith': False}, {'allow_add_punct': False},
               {'allow_delete_punct': False}]
    if part == 0:
        comply_cases(j, kind)
    for count, forms in list(enumerate(lists))[part::parts]:
        nospaces = [(), (1,)] if len(forms) > 1 else [()]
        for nospace in nospaces:
            trees = [(words_of(forms, nospace=nospace), (), t) for t in texts]
            if len(forms) == 2 and not nospace:     # one of them as a multiword token
                for k, mine in enumerate((('v', 'w', forms[1]), (forms[0], 'v', 'w'))):
                    trees += [(words_of(mine), ((1 + k, 2 + k, forms[k], ()),), t) for t in texts]
            for kwargs in options if deep or len(forms) == 1 else [options[0], options[1 + count // parts % 5]]:
                mine = trees if deep else trees[(count + count // 5) % 5::5]
                for k in range(0, len(mine), 20):
                    label = f'{kind}({kwargs}) of {list(map(read, forms))}'
                    got = j.run('comply', kind, label, ('document', [lift(mine[k:k + 20])]), kwargs)
                    if not got:
                        break
                    for before, view in zip(*got):
                        check_comply(j, kind, kwargs, label, before, view)


def comply_cases(j, kind):
    """The documented repairs, which leave the text as it is."""
    x, y, z, v, w, p, q = map(hole, range(7))
    goes = lambda n: [(0, '')] + [(1, 'goeswith')] * (n - 1)
    cases = [
        ({}, [x + y + z], f'{x} {y} {z}', [x, y, z], goes(3), []),
        ({}, [f'{x}-{y}-{z}'], f'{x} {y} {z}', [x, y, z], goes(3), []),
        ({}, [x], f'{x} . ,', [x, '.', ','], [(0, ''), (1, 'punct'), (1, 'punct')], []),
        ({}, [x], f'{x}.', [x, '.'], [(0, ''), (1, 'punct')], []),
        ({}, [x], f'.{x}', ['.', x], [(2, 'punct'), (0, '')], []),
        ({}, [x], f'{x}!. {y}'[:3], [x, '!.'], [(0, ''), (1, 'punct')], []),
        ({}, [x], y, [y], [(0, '')], []),
        ({}, [x, '.', y], f'{x} {y}', [x, y], [(0, ''), (1, '')], []),
        ({}, ['.', x], x, [x], [(0, '')], []),
        ({}, [x, y], x + y, [x, y], [], [(x + y, (1, 2))]),
        ({}, [x, y, z, v], x + y + z + v, [x, y, z, v], [], [(x + y + z + v, (1, 2, 3, 4))]),
        ({}, [x, y, z, v, w], x + y + z + v + w, [x, y, z, v, w], [], []),
        ({'max_mwt_length': 2}, [x, y, z], x + y + z, [x, y, z], [], []),
        ({'prefer_mwt': False}, [x, y], x + y, [x, y], [], []),
        ({}, [x + y, z + v], w + p, [x + y, z + v], [], [(w + p, (1, 2))]),
        ({'prefer_mwt': False}, [x + y, z + v, x], f'{w}{p} {x}', [x + y, z + v, x], [], [(w + p, (1, 2))]),
        ({}, [x + y, z + v, x + x, v + v], w + p + q, [x + y, z + v, x + x, v + v], [], [(w + p + q, (1, 2, 3, 4))]),
        ({'allow_add_punct': False}, [x], f'{x}.', [f'{x}.'], [(0, '')], []),
        ({'allow_hyphen_goeswith': False, 'fix_text': False}, [f'{x}-{y}'], f'{x} {y}', [f'{x}-{y}'], [(0, '')], []),
        ({}, ['1000'], '1 000', ['1 000'], [(0, '')], []),
    ]
    for kwargs, forms, text, want, edges, tokens in cases:
        label = f'{kind}({kwargs}) of {list(map(read, forms))} with text {read(text)!r}'
        got = j.run('comply', kind, label, ('document', [lift([(words_of(forms), (), text)])]), kwargs)
        if not got:
            continue
        view = got[1][0]
        if [w[1] for w in view[WORDS]] != want or [m[:2] for m in view[MWTS]] != tokens:
            if not tokens or view[MWTS] or text not in (x + y, x + y + z + v) or [w[1] for w in view[WORDS]] != want:      # how difflib aligns is not promised
                j.wrong('comply', kind, f'{label}: the words are {[read(w[1]) for w in view[WORDS]]}, '
                        f'the multiword tokens {[(read(m[0]), m[1]) for m in view[MWTS]]}')
        elif view[TEXT] != text or view[COMPUTED] != text and kwargs.get('fix_text') is not False:
            j.wrong('comply', kind, f'{label}: the text is {read(view[TEXT])!r}, the tokens spell {read(view[COMPUTED])!r}')
        elif any(w[2] != h or d and w[3] != d for w, (h, d) in zip(view[WORDS], edges)):
            j.wrong('comply', kind, f'{label}: the edges are {[w[2:4] for w in view[WORDS]]}')


def check_comply(j, kind, kwargs, label, before, view):
    label = f'{label} with text {read(before[TEXT])!r}'
    if kwargs.get('fix_text') is False:
        if view[TEXT] != before[TEXT]:
            j.wrong('comply', kind, f'{label}: the text becomes {read(view[TEXT])!r}')
    elif view[TEXT] != (view[COMPUTED] or ''):
        j.wrong('comply', kind, f'{label}: the text is {read(view[TEXT])!r} and the tokens spell {read(view[COMPUTED])!r}')
    elif view[TEXT] != before[TEXT] and 'OrigText = ' + before[TEXT] not in view[COMMENT]:
        j.wrong('comply', kind, f'{label}: the text {read(view[TEXT])!r} replaces it without a comment')
    full = [w for w in before[WORDS] if not re.fullmatch(f'[{PUNCT}]+', w[1])]
    if not all(w[1] for w in view[WORDS]) or not all(m[0] for m in view[MWTS]):
        j.wrong('comply', kind, f'{label}: a word has no form')
    elif kwargs.get('allow_delete_punct') is False and len(view[WORDS]) < len(before[WORDS]) or \
            len(view[WORDS]) < len(full) and not before[MWTS]:
        j.wrong('comply', kind, f'{label}: words are lost')
    if not before[MWTS] and squeeze(before[TEXT]).replace(' ', '') == ''.join(w[1] for w in before[WORDS]):
        ends = set(itertools.accumulate(len(w[1]) for w in before[WORDS]))
        inside = set(itertools.accumulate(map(len, before[TEXT].split()))) - ends
        solved = squeeze(before[TEXT]) if not inside or kwargs.get('allow_goeswith') is not False else None
        if solved is not None and view[COMPUTED] != solved and not all_split(before):
            j.wrong('comply', kind, f'{label}: the tokens spell {read(view[COMPUTED])!r}')


def all_split(before):
    """Spaces inside of more than one neighbouring words are left to the heuristics."""
    ends = set(itertools.accumulate(len(w[1]) for w in before[WORDS]))
    inside = set(itertools.accumulate(map(len, before[TEXT].split()))) - ends
    return bool(inside)


# ------------------------------------------------------------------ SpaceAfter without text
def heuristic(ctx, j, deep):
    ctx.rule('heuristic', 'ud.SetSpaceAfter treats every sentence alike, changes only the spacing and spells the text again')
    kind = 'ud.SetSpaceAfter'
    x = hole(0)
    pool = [x, '.', '(', '"', '„', '“']
    lists = [f for n in range(0, 5 if deep else 4) for f in itertools.product(pool, repeat=n)]
    alone = {}
    for forms in lists:
        label = f'{kind} of {list(map(read, forms))}'
        got = j.run('heuristic', kind, label, ('document', [lift([(words_of(forms), (), 'text')])]))
        if not got:
            continue
        before, view = got[0][0], got[1][0]
        alone[forms] = view
        marked = [w[0] for w in view[WORDS] if w[4]]
        if [w[:4] for w in view[WORDS]] != [w[:4] for w in before[WORDS]]:
            j.wrong('heuristic', kind, f'{label}: the words become {view[WORDS]}')
        elif view[TEXT] != (view[COMPUTED] if marked else 'text'):
            j.wrong('heuristic', kind, f'{label}: the text is {read(view[TEXT])!r}')
        for i, (a, b) in enumerate(zip(forms, forms[1:]), 1):
            if (a in ('(', '„') or b == '.') and i not in marked:
                j.wrong('heuristic', kind, f'{label}: {read(a)} is followed by a space')
            if a == x and b == x and i in marked:
                j.wrong('heuristic', kind, f'{label}: a word is joined with the next one')
    for forms, first, spelled in ((('p', 'q', '.'), 1, 'pq.'), (('(', 'p', 'q'), 2, '(pq'), (('p', 'q', 'r'), 1, 'pq r'), (('p', ')', 'q'), 2, 'p)q')):
        form = ''.join(forms[first - 1:first + 1])
        label = f'{kind} of {forms} with the multiword token {form!r}'
        got = j.run('heuristic', kind, label, ('document', [lift([(words_of(forms), ((first, first + 1, form, ()),), 'text')])]))
        if got and got[1][0][COMPUTED] != spelled and (')' not in forms or got[1][0][COMPUTED] not in ('p)q', 'p )q')):
            j.wrong('heuristic', kind, f'{label}: the words spell {got[1][0][COMPUTED]!r}')
        elif got and any(w[4] for w in got[1][0][WORDS][first - 1:first + 1]):
            j.wrong('heuristic', kind, f'{label}: a word in the multiword token has SpaceAfter=No')
    short = [f for f in alone if len(f) == 3]
    for k in range(0, len(short), 12):
        chunk = short[k:k + 12]
        for order in (chunk, chunk[::-1]):
            label = f'{kind} of {[list(map(read, f)) for f in order]}'
            got = j.run('heuristic', kind, label, ('document', [lift([(words_of(f), (), 'text') for f in order])]))
            for f, view in zip(order, got[1]) if got else ():
                if view[WORDS] != alone[f][WORDS] or view[TEXT] != alone[f][TEXT]:
                    j.wrong('heuristic', kind, f'{label}: {list(map(read, f))} is spelled {read(view[COMPUTED])!r}, '
                            f'alone {read(alone[f][COMPUTED])!r}')


# ------------------------------------------------------------------ sentences split and joined
def sentences(ctx, j, deep):
    ctx.rule('sentences', 'util.SplitSentence and util.JoinSentence keep the words, their order and edges, and spell the texts again')
    from .c09 import trees
    joined_more(j)
    for n in range(2, 5 if deep else 4):
        forms = letters((1,) * n)
        for heads in trees(n):
            for nospace in ((), (1,), (n,)):
                if n > 3 and nospace:
                    continue
                for tokens in ((), ((1, 2, 'mn', ()),)):
                    for marks in [s for s in subsets(range(2, n + 1)) if s and not (tokens and 2 in s)]:
                        split(j, forms, heads, nospace, tokens, marks)
        if n > 3:
            continue
        for heads in trees(n):
            joined(j, forms, heads, n)


def marked(words, marks):
    return tuple((v, m + ((('Mark', 'Yes'),) if i in marks else ()), h) for i, (v, m, h) in enumerate(words, 1))


def split(j, forms, heads, nospace, tokens, marks):
    kind = 'util.SplitSentence'
    words = marked(words_of(forms, heads, nospace), marks)
    label = f'{kind} of {show(heads)} at {list(marks)} with tokens {[t[:2] for t in tokens]}'
    runs = [('Mark', {'misc_name': 'Mark'})]
    if len(marks) == 1:
        runs.append(('id', {'sent_id': '1', 'word_id': marks[0]}))
    for how, kwargs in runs:
        doc = ('document', [lift([(words, tokens, spell(forms, nospace)), (words_of(['q']), (), 'q')])])
        got = j.run('sentences', kind, f'{label} by {how}', doc, kwargs)
        if not got:
            continue
        cuts = [0] + [m - 1 for m in marks] + [len(forms)]
        want = [forms[a:b] for a, b in zip(cuts, cuts[1:])]
        if not check_sentences(j, 'sentences', kind, label, want + [['q']], got[1]):
            continue
        for view, a, b in zip(got[1], cuts, cuts[1:]):
            edges = [(heads[i] - a if a < heads[i] <= b else 0) for i in range(a, b)]
            if [w[2] for w in view[WORDS]] != edges or any((w[3] == 'root') != (not w[2]) for w in view[WORDS]):
                j.wrong('sentences', kind, f'{label}: the heads are {[w[2:4] for w in view[WORDS]]}')
            if how == 'Mark' and any(w[7] for w in view[WORDS]):
                j.wrong('sentences', kind, f'{label}: the mark stays')
            if view[TEXT] != spell(forms[a:b], [i - a for i in nospace]) and not tokens:
                j.wrong('sentences', kind, f'{label}: the text is {read(view[TEXT])!r}')
            want_mwts = [(t[2], tuple(range(t[0] - a, t[1] - a + 1))) for t in tokens if a < t[0] and t[1] <= b]
            if [m[:2] for m in view[MWTS]] != want_mwts:
                j.wrong('sentences', kind, f'{label}: the multiword tokens are {view[MWTS]}')
        names = [v[BUNDLE] for v in got[1]]
        if names != ['1' + c for c in 'ABCD'[:len(want)]] + ['2']:
            j.wrong('sentences', kind, f'{label}: the sentences are called {names}')


def joined_more(j):
    """Which sentences are joined to which."""
    kind = 'util.JoinSentence'
    for values in itertools.product((None, 'Yes', 'Other'), repeat=3):
        trees = [(words_of(['p']), (), 'p')] + [(tuple((v, m + ((('Mark', value),) if value else ()), h) for v, m, h in words_of([f])), (), f)
                                                for f, value in zip('qrs', values)]
        for kwargs in ({'misc_name': 'Mark'}, {'misc_name': 'Mark', 'misc_value': 'Yes'}):
            label = f'{kind}({kwargs}) of sentences with marks {values}'
            got = j.run('sentences', kind, label, ('document', [lift(trees)]), kwargs)
            want = [['p']]
            for f, value in zip('qrs', values):
                if value == 'Yes' or value and len(kwargs) == 1:
                    want[-1].append(f)
                else:
                    want.append([f])
            if got:
                check_sentences(j, 'sentences', kind, label, want, got[1])


def joined(j, forms, heads, n):
    kind = 'util.JoinSentence'
    for nospace in ((), (n,)):
        for tokens in ((), ((1, 2, 'mn', ()),)):
            trees = [(words_of(['p', 'q'], None, ()), tokens, 'p q'),
                     (marked(words_of(forms, heads, nospace), (1,)), tokens, spell(forms, nospace)),
                     (marked(words_of(['r']), ()), (), 'r'), (marked(words_of(['s']), ()), (), 's')]
            for how, kwargs in (('Mark', {'misc_name': 'Mark'}), ('id', {'sent_id': '2'}), ('value', {'misc_name': 'Mark', 'misc_value': 'Yes'})):
                label = f'{kind} of {show(heads)} by {how}'
                got = j.run('sentences', kind, label, ('document', [lift(trees)]), kwargs)
                if not got:
                    continue
                if not check_sentences(j, 'sentences', kind, label, [['p', 'q'] + forms, ['r'], ['s']], got[1]):
                    continue
                view = got[1][0]
                edges = [0, 1] + [h + 2 if h else 0 for h in heads]
                if [w[2] for w in view[WORDS]] != edges:
                    j.wrong('sentences', kind, f'{label}: the heads are {[w[2] for w in view[WORDS]]}')
                if how != 'id' and any(w[7] for w in view[WORDS]):
                    j.wrong('sentences', kind, f'{label}: the mark stays')
                if [m[:2] for m in view[MWTS]] != ([('mn', (1, 2)), ('mn', (3, 4))] if tokens else []):
                    j.wrong('sentences', kind, f'{label}: the multiword tokens are {view[MWTS]}')


# ------------------------------------------------------------------ tokens split and joined
def joining(ctx, j, deep):
    ctx.rule('joining', 'joining tokens to multiword tokens or words and splitting them keeps what the sentence spells')
    x, y = hole(0), hole(1)
    n = 4 if deep else 3
    for forms in [f for k in range(1, n + 1) for f in itertools.product((x, '.', x + y), repeat=k)]:
        trees = [(words_of(forms, nospace=s), (), spell(forms, s)) for s in subsets(range(1, len(forms) + 1))]
        kind = 'ud.JoinAsMwt'
        label = f'{kind} of {list(map(read, forms))}'
        got = j.run('joining', kind, label, ('document', [lift(trees)]))
        for before, view in zip(*got) if got else ():
            if view[COMPUTED] != before[COMPUTED] or [w[:4] for w in view[WORDS]] != [w[:4] for w in before[WORDS]]:
                j.wrong('joining', kind, f'{label}: {read(before[COMPUTED])!r} becomes {read(view[COMPUTED])!r}')
            want = []
            for i, w in enumerate(before[WORDS]):
                if i and before[WORDS][i - 1][4] and '.' not in (before[WORDS][i - 1][1], w[1]):
                    want[-1].append(i + 1)
                else:
                    want.append([i + 1])
            if [list(m[1]) for m in view[MWTS]] != [g for g in want if len(g) > 1]:
                j.wrong('joining', kind, f'{label}: the multiword tokens of {read(before[COMPUTED])!r} are {view[MWTS]}')
    for tokens, nospace, spelled in ((((2, 3, 'qr', ()),), (1,), 'pqr s'), (((1, 2, 'pq', (('SpaceAfter', 'No'),)),), (), 'pqr s'),
                                     (((2, 3, 'qr', (('SpaceAfter', 'No'),)),), (1,), 'pqrs')):
        label = f'{kind} of four words with the multiword token {tokens[0][2]!r}'
        got = j.run('joining', kind, label, ('document', [lift([(words_of(['p', 'q', 'r', 's'], nospace=nospace), tokens, None)])]))
        if got and (got[1][0][COMPUTED] != spelled or got[1][0][MWTS] != got[0][0][MWTS]):
            j.wrong('joining', kind, f'{label}: {spelled!r} becomes {got[1][0][COMPUTED]!r} with tokens {got[1][0][MWTS]}')
    kind = 'ud.JoinToken'
    from .c09 import trees as shapes
    for k in range(2, n + 1):
        forms = letters((1,) * k)
        for heads in shapes(k):
            for at in range(2, k + 1):
                trees = [(tuple((v, m + ((('JoinToken', 'Yes'),) if i == at else ()), h)
                                for i, (v, m, h) in enumerate(words_of(forms, heads, s), 1)), (), spell(forms, s))
                         for s in subsets(range(1, k + 1))[:6]]
                label = f'{kind} of {show(heads)} at {at}'
                got = j.run('joining', kind, label, ('document', [lift(trees)]))
                for before, view in zip(*got) if got else ():
                    ok = before[WORDS][at - 2][4] == 'No'
                    want = forms[:at - 2] + [forms[at - 2] + forms[at - 1]] + forms[at:] if ok else forms
                    if view[COMPUTED] != before[COMPUTED] or [w[1] for w in view[WORDS]] != want:
                        j.wrong('joining', kind, f'{label}: {read(before[COMPUTED])!r} becomes {read(view[COMPUTED])!r}')
                    elif ok and not joined_edges(view, heads, at):
                        j.wrong('joining', kind, f'{label}: the heads are {[w[2] for w in view[WORDS]]}')
    kind = 'ud.SplitUnderscoreTokens'
    for forms in [f for k in range(1, 3) for f in itertools.product((x, x + '_' + y, x + '_' + y + '_' + x, '_'), repeat=k)]:
        trees = [(tuple((v + (('lemma', dict(v)['form']),), m, h) for v, m, h in words_of(forms, nospace=s)), (), spell(forms, s))
                 for s in subsets(range(1, len(forms) + 1))]
        label = f'{kind} of {list(map(read, forms))}'
        got = j.run('joining', kind, label, ('document', [lift(trees)]))
        for before, view in zip(*got) if got else ():
            want = ''.join((w[1] if w[1] == '_' else w[1].replace('_', ' ')) + ('' if w[4] else ' ') for w in before[WORDS]).rstrip()
            if view[COMPUTED] != want:
                j.wrong('joining', kind, f'{label}: {read(before[COMPUTED])!r} becomes {read(view[COMPUTED])!r}')
    kind = 'ud.FixMwtSpace'
    for form in ('p q', 'pq', 'p  q', 'p r'):
        for s in ((), (2,), (1,)):
            trees = [(words_of(['p', 'q', 'r'], nospace=s), ((1, 2, form, (('SpaceAfter', 'No'),) if 2 in s else ()),), None)]
            label = f'{kind} of {form!r}'
            got = j.run('joining', kind, label, ('document', [lift(trees)]))
            for before, view in zip(*got) if got else ():
                if form != 'p q' and view != before:
                    j.wrong('joining', kind, f'{label}: {before[:4]} becomes {view[:4]}')
                elif form == 'p q' and (view[MWTS] or view[COMPUTED] != before[COMPUTED]):
                    j.wrong('joining', kind, f'{label} before a word {"without" if s == (2,) else "with"} space: {read(before[COMPUTED])!r} '
                            f'becomes {read(view[COMPUTED])!r}')


def joined_edges(view, heads, at):
    """The two words become one; all others keep their heads."""
    new = lambda i: i if i < at else i - 1
    for i, h in enumerate(heads, 1):
        if i == at:
            continue
        got = view[WORDS][new(i) - 1][2]
        if i == at - 1:
            seen = {at - 1, at}
            while h in seen:
                h = heads[h - 1]
            if heads[i - 1] and up(heads, i, at):
                h = heads[at - 1]
        if got != new(h):
            return False
    return True


def up(heads, i, top):
    while i:
        i = heads[i - 1]
        if i == top:
            return True
    return False


# ------------------------------------------------------------------ multiword tokens from analyses
def adding(ctx, j, deep):
    ctx.rule('adding', 'a multiword token that ud.AddMwt adds is spelled as the word that it replaces')
    kind = 'ud.AddMwt'
    for forms, main in ((('ab', 'cd'), 0), (('ab', 'cd'), 1), (('ab', 'cd', 'ef'), 0), (('ab', 'cd', 'ef'), 1), (('ab', 'cd', 'ef'), 2)):
        for shape in ('siblings', 'subtree'):
            for misc in (None, '*' + ' _' * (len(forms) - 1)):
                for form in ('abcd', 'Abcd', 'ABCD'):
                    analysis = {'form': ' '.join(forms), 'main': main, 'shape': shape, 'upos': ' '.join('*' * len(forms))}
                    if misc:
                        analysis['misc'] = misc
                    trees = []
                    for at in range(1, 4):
                        for s in ((), (at,)):
                            fs = ['x', 'y', 'z']
                            fs[at - 1] = form
                            words = tuple((v, m + ((('Split', 'Yes'), ('Mark', 'Yes')) if i == at else ()), h)
                                          for i, (v, m, h) in enumerate(words_of(fs, (2, 0, 2), s), 1))
                            trees.append((words, (), spell(fs, s)))
                    label = f'{kind} with {analysis} of {form}'
                    got = j.run('adding', kind, label, ('document', [lift(trees)]), {'analysis': tuple(analysis.items())},
                                cls=('cls', '@client.Analysis'))
                    for i, (before, view) in enumerate(zip(*got) if got else ()):
                        at = i // 2 + 1
                        cased = [f.upper() for f in forms] if form.isupper() else \
                            [forms[0].title(), *forms[1:]] if form[0].isupper() else list(forms)
                        want = [w[1] for w in before[WORDS]]
                        want[at - 1:at] = cased
                        if view[COMPUTED] != before[COMPUTED] or [w[1] for w in view[WORDS]] != want or \
                                [m[:2] for m in view[MWTS]] != [(form, tuple(range(at, at + len(forms))))]:
                            j.wrong('adding', kind, f'{label}: {before[COMPUTED]!r} becomes {view[COMPUTED]!r} with words '
                                    f'{[w[1] for w in view[WORDS]]} and tokens {view[MWTS]}')
                            continue
                        pos = at + main
                        new = lambda i: i if i < at else pos if i == at else i + len(forms) - 1
                        heads = [w[2] for w in view[WORDS]]
                        old = [w[2] for w in before[WORDS]]
                        for i in range(1, 4):
                            if heads[new(i) - 1] != (new(old[i - 1]) if old[i - 1] else 0):
                                j.wrong('adding', kind, f'{label} at {at}: the heads are {heads}')
                        for i in range(at, at + len(forms)):
                            if i != pos and heads[i - 1] != (pos if shape == 'subtree' else heads[pos - 1]):
                                j.wrong('adding', kind, f'{label} at {at}: the heads are {heads}')


def adding_text(ctx, j, deep):
    ctx.rule('adding_text', 'read.AddText gives every sentence its part of the text')
    fn = j.p.classes['udapi.block.read.addtext.AddText'].find_method('process_document')
    for sizes in [s for k in range(1, 4) for s in itertools.product((1, 2), repeat=k)]:
        k = itertools.count()
        forms = [[hole(next(k)) for _ in range(s)] for s in sizes]
        n = sum(sizes)
        gaps = list(itertools.product(('', ' ', '\n\n'), repeat=n - 1))
        for gap in gaps if deep else gaps[::max(1, len(gaps) // 27)]:
            flat = [f for fs in forms for f in fs]
            text = ''.join(f + g for f, g in zip(flat, gap + ('\n',)))
            label = f'read.AddText of {read(text)!r} to {[list(map(read, f)) for f in forms]}'
            base = j.call(label, 'document', [lift([(words_of(f), (), None) for f in forms])], None)
            if base is None or is_raise(base[0]):
                continue
            got = j.ask('adding_text', label, fn, 'add_text', [base[0], C(text), lift(())], base[1])
            ctx.count('documents processed')
            if not got:
                continue
            ctx.ok(label)
            i = 0
            for fs, view in zip(forms, got[0][1]):
                inner = gap[i:i + len(fs) - 1]
                want = squeeze(''.join(f + g for f, g in zip(fs, inner + ('',))))
                last = (gap + ('\n',))[i + len(fs) - 1]
                if view[TEXT] != want or view[COMPUTED] != want:
                    ctx.find('adding_text', fn.module.path, fn.lineno, fn.qual, f'{label}: the text is {read(view[TEXT])!r}')
                elif (view[WORDS][-1][4] == 'No') != (last == ''):
                    ctx.find('adding_text', fn.module.path, fn.lineno, fn.qual, f'{label}: the space after the sentence is wrong')
                elif bool(view[NEWPAR]) != (i == 0 or gap[i - 1] == '\n\n'):
                    ctx.find('adding_text', fn.module.path, fn.lineno, fn.qual, f'{label}: the beginnings of paragraphs are wrong')
                i += len(fs)
