"""C19: bundles, trees and their identifiers stay consistent."""
from ..absint import C, Undetermined, is_c, is_raise
from ..text import Text, client

EXPLANATION = ('Abstract interpretation of client programs that create, add, move, rename and remove bundles and trees (directly and by '
               'the blocks of the library), over all sequences of operations up to a bound; states of the document that are equal are '
               'merged. In every state that is reached a second client program compares what the public interface shows.')
TECHNIQUE = 'abstract interpretation: exploration of all sequences of operations on bundles and trees, merged by canonical heaps'

CLIENT = '''
import io
from udapi.core.document import Document
from udapi.core.root import Root
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.read.sentences import Sentences
from udapi.block.util.split import Split
from udapi.block.util.splitsentence import SplitSentence
from udapi.block.util.joinsentence import JoinSentence
from udapi.block.util.normalize import Normalize
from udapi.block.segment.simple import Simple
from udapi.block.segment.merge import Merge
from udapi.block.udpipe.base import Base


def empty():
    return [Document(), [], []]


def loaded(text, more=None, **kwargs):
    doc = Document()
    Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    if more is not None:
        Reader(filehandle=io.StringIO(more), **kwargs).apply_on_document(doc)
    return known(doc)


def known(doc):
    return [doc, list(doc.bundles), [tree for bundle in doc for tree in bundle]]


def size(w):
    return [len(w[1]), len(w[2])]


def fill(tree):
    node = tree.create_child(form='a')
    node.create_child(form='b')
    tree.create_multiword_token(tree.descendants, form='ab')


def op_create_bundle(w):
    ids = [b.bundle_id for b in w[0].bundles]
    bundle = w[0].create_bundle()
    w[1].append(bundle)
    if bundle.bundle_id in ids:
        return 'the new bundle gets an identifier that is already used'


def op_create_tree(w, b, zone):
    tree = w[1][b].create_tree(zone)
    w[2].append(tree)
    if tree.zone != (zone or ''):
        return 'the new tree is not in the given zone'


def op_loose(w, zone, sent_id):
    tree = Root(zone=zone)
    if sent_id:
        tree.sent_id = sent_id
        if tree.sent_id != sent_id:
            return 'the identifier given to a tree outside of a document is not kept'
    w[2].append(tree)


def op_add_tree(w, b, t):
    w[1][b].add_tree(w[2][t])
    if w[2][t].bundle is not w[1][b]:
        return 'the tree is not in the bundle it was added to'


def op_remove_bundle(w, b):
    if w[1][b] in w[0].bundles:
        w[1][b].remove()
        if w[1][b] in w[0].bundles:
            return 'a removed bundle is still in the document'


def op_remove_tree(w, t):
    if w[2][t].bundle is not None:
        bundle = w[2][t].bundle
        rest = [x for x in bundle.trees if x is not w[2][t]]
        w[2][t].remove()
        if bundle.trees != rest:
            return 'removing a tree does not leave exactly the other trees in the bundle'


def op_zone(w, t, zone):
    w[2][t].zone = zone
    if w[2][t].zone != zone:
        return 'the tree does not get the given zone'


def op_sent_id(w, t, sent_id):
    tree = w[2][t]
    tree.sent_id = sent_id
    if tree.bundle is not None:
        if tree.bundle.bundle_id != sent_id.split('/')[0]:
            return 'setting sent_id of a tree does not set the identifier of its bundle'
        if '/' in sent_id and tree.zone != sent_id.split('/')[1]:
            return 'setting sent_id of a tree does not set its zone'
    elif tree.sent_id != sent_id:
        return 'the identifier given to a tree outside of a document is not kept'


def op_bundle_id(w, b, bundle_id):
    w[1][b].bundle_id = bundle_id
    if w[1][b].bundle_id != bundle_id:
        return 'the bundle does not get the given identifier'


def op_look(w, t):
    w[2][t].sent_id


def check(w):
    doc = w[0]
    for i, b in enumerate(doc.bundles, 1):
        if b.number != i:
            return f'bundle {i} of the document has number {b.number}'
        if b.document is not doc:
            return f'bundle {i} does not know its document'
        if len([x for x in doc.bundles if x is b]) != 1:
            return f'bundle {i} is listed more than once'
    bundles = w[1] + [b for b in doc.bundles if b not in w[1]]
    trees = w[2] + [t for b in doc.bundles for t in b.trees if t not in w[2]]
    for b in bundles:
        for t in b.trees:
            if t.bundle is not b:
                return f'a tree in bundle {b.address()} does not know its bundle'
            if len([x for x in b.trees if x.zone == t.zone]) > 1:
                return f'two trees in bundle {b.address()} are in zone {t.zone!r}'
            if b.get_tree(t.zone) is not t or not b.has_tree(t.zone):
                return f'the tree in zone {t.zone!r} is not found'
            want = b.address() + ('/' + t.zone if t.zone else '')
            if t.sent_id != want:
                return f'the tree {want} has sent_id {t.sent_id}'
            if t.address() != want:
                return f'the tree {want} has address {t.address()}'
            if b in doc.bundles and t.document is not doc:
                return f'the tree {want} does not know its document'
            for n in t.descendants:
                if n.address() != f'{want}#{n.ord}':
                    return f'node {n.ord} of tree {want} has address {n.address()}'
                if n.root.bundle is not b:
                    return f'node {n.ord} of tree {want} does not know its bundle'
            for m in t.multiword_tokens:
                if m.address() != f'{want}#{m.ord_range}':
                    return f'a multiword token of tree {want} has address {m.address()}'
    for t in trees:
        listed = len([x for b in bundles for x in b.trees if x is t])
        if listed > 1:
            return f'a tree is in {listed} bundles'
        if t.bundle is None and listed:
            return 'a tree in a bundle says that it is in none'
        if t.bundle is not None and not listed:
            return 'a tree says that it is in a bundle that does not list it'
    for i, a in enumerate(doc.bundles):
        for b in doc.bundles[i + 1:]:
            for t in a.trees:
                if b.has_tree(t.zone):
                    u = b.get_tree(t.zone)
                    if not t.precedes(u) or u.precedes(t):
                        return f'the tree {t.address()} does not precede {u.address()}'
    return None


class Tool:
    def __init__(self):
        self.n = 0

    def tokenize_tag_parse_tree(self, root, **kwargs):
        self.n += 1
        trees = [Root() for i in range(self.n % 3)]
        return [root] + trees

    def segment_text(self, text):
        return text.split(' ')


def block_split(text, **kwargs):
    doc = Document()
    Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    block = Split(**kwargs)
    block.process_document(doc)
    res = [known(doc)]
    while not block.finished:
        doc = Document()
        block.process_document(doc)
        doc.create_bundle()
        res.append(known(doc))
    return res


def block_filter(text, **kwargs):
    doc = Document()
    docs = [doc]
    Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    for bundle in list(doc.bundles):
        for tree in bundle:
            tree.draw
    return [known(doc)]


def run_block(text, block, setup):
    doc = Document()
    Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    setup(doc)
    block.process_document(doc)
    doc.create_bundle()
    return [known(doc)]


def nothing(doc):
    pass


def untokenized(doc):
    for i, tree in enumerate(doc.trees):
        for node in tree.children:
            node.remove()
        tree.text = 'A b. C d. E' if i % 2 == 0 else 'A b'


def block_splitsentence(text, **kwargs):
    return run_block(text, SplitSentence(**kwargs), nothing)


def block_joinsentence(text, **kwargs):
    return run_block(text, JoinSentence(**kwargs), nothing)


def block_merge(text, **kwargs):
    return run_block(text, Merge(**kwargs), nothing)


def block_simple(text, **kwargs):
    return run_block(text, Simple(**kwargs), untokenized)


def block_udpipe(text, **kwargs):
    block = Base(model='x', **kwargs)
    block._tool = Tool()
    return run_block(text, block, untokenized)


def block_normalize(text, **kwargs):
    doc = Document()
    Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    Normalize(**kwargs).run(doc)
    return [known(doc)]


def block_sentences(text, **kwargs):
    doc = Document()
    Sentences(filehandle=io.StringIO(text), **kwargs).apply_on_document(doc)
    return [known(doc)]


def block_split_docs(text, **kwargs):
    return [known(doc) for doc in Reader(filehandle=io.StringIO(text), **kwargs).read_documents()]
'''


def canon(st, root):
    """A canonical form of everything that is reachable from a value."""
    names, queue, out = {}, [], []

    def renamed(x):
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == 'o' and isinstance(x[1], str):
            if x[1] not in names:
                names[x[1]] = len(names)
                queue.append(x[1])
            return 'o', names[x[1]]
        return tuple(renamed(y) for y in x)
    head = renamed(root)
    for oid in queue:
        if oid in st.heap:
            out.append((names[oid], renamed(st.heap[oid].key())))
    return head, tuple(out)


ONE = '# sent_id = {}\n# text = a b\n1\ta\t_\t_\t_\t_\t0\t_\t_\t_\n2\tb\t_\t_\t_\t_\t1\t_\t_\t{}\n\n'


def text(*ids, misc='_'):
    return ''.join(ONE.format(i, misc) for i in ids)


STARTS = (
    ('an empty document', 'empty', (), {}),
    ('a document with sentences 2, 3 and 7', 'loaded', (text('2', '3', '7'),), {}),
    ('a document with sentence s1 in zones a and b and sentence s2', 'loaded', (text('s1/a', 's1/b', 's2'),), {}),
    ('a document with sentences without identifiers', 'loaded', (text('1', '2').replace('# sent_id = 1\n', '').replace('# sent_id = 2\n', ''),), {}),
    ('sentences s1 and s2 read into two zones', 'loaded', (text('s1', 's2'), text('s1', 's2')), {'zone': 'b'}),
    ('sentences s1 and s2 to which more sentences are read in zone b', 'loaded', (text('s1', 's2'), text('x1', 'x2/c', '3')), {'zone': 'b'}),
)
ZONES = (None, '', 'a', 'b', 'en_x', 'all', 'A B')
BLOCKS = (
    ('block_split', {'parts': 2}), ('block_split', {'bundles_per_doc': 1}), ('block_split', {'bundles_per_doc': 2}),
    ('block_splitsentence', {'misc_name': 'A'}), ('block_splitsentence', {'sent_id': 's1', 'word_id': 2}), ('block_splitsentence', {'sent_id': '2', 'word_id': 2}),
    ('block_joinsentence', {'misc_name': 'B'}), ('block_joinsentence', {'sent_id': 's2'}), ('block_joinsentence', {'sent_id': '3'}),
    ('block_merge', {}), ('block_simple', {}), ('block_simple', {'zones': 'a'}),
    ('block_udpipe', {'resegment': True}), ('block_udpipe', {'resegment': True, 'zones': 'b'}),
    ('block_udpipe', {'tokenize': False, 'tag': False, 'parse': False, 'resegment': True}), ('block_udpipe', {}),
    ('block_normalize', {'sent_id': True}), ('block_normalize', {'sent_id_prefix': 'x-', 'start_sent_id': 3}),
    ('block_split_docs', {'bundles_per_doc': 1}), ('block_split_docs', {'bundles_per_doc': 2}), ('block_split_docs', {'zone': 'z', 'bundles_per_doc': 2}),
    ('block_split_docs', {'ignore_sent_id': True}), ('block_split_docs', {'split_docs': True}),
)
TEXTS = (('2, 3 and 7', text('2', '3', '7', misc='A=1')), ('s1, s2 and s3', text('s1', 's2', 's3', misc='A=1|B=2')), ('s1', text('s1', misc='A')),
         ('s1 in zones a and b, s2 in zone b and s3', text('s1/a', 's1/b', 's2/b', 's3')))


def operations(bundles, trees, deep):
    if bundles < 3:
        yield 'create_bundle', ()
    for b in range(bundles):
        if trees < 4:
            for z in ZONES:
                yield 'create_tree', (b, z)
        for t in range(trees):
            yield 'add_tree', (b, t)
        yield 'remove_bundle', (b,)
        for i in ('y', '9') if deep else ('9',):
            yield 'bundle_id', (b, i)
    if trees < 4:
        for z, i in ((None, None), ('a', None), ('b', 'q'), (None, 'q/a')):
            yield 'loose', (z, i)
    for t in range(trees):
        yield 'remove_tree', (t,)
        yield 'look', (t,)
        for z in ('', 'a', 'b', 'all', 'A B') if deep else ('', 'a', 'all'):
            yield 'zone', (t, z)
        for i in ('y', 'y/a', 'y/b', 'y/A B', '9') if deep else ('y', 'y/a', 'y/A B'):
            yield 'sent_id', (t, i)


def show(name, args):
    return f'{name}({", ".join(repr(a) for a in args)})'


class Judge:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.steps = 90000000 if ctx.tier == 'thorough' else 30000000
        client(self.p, CLIENT)
        self.cls = self.p.classes['udapi.core.bundle.Bundle']

    def call(self, label, func, args, st, kwargs=()):
        if self.steps <= 0:
            self.ctx.undet('the budget of this check is used up: not all sequences were explored')
            return []
        it = Text(self.p, budget=100000)
        try:
            return it.call_func(self.p.functions['@client.' + func], list(args), {k: C(v) for k, v in dict(kwargs).items()},
                                st.fork() if st is not None else it.start(), it.node)
        except Undetermined as e:
            self.ctx.undet(f'{label}: {e}')
        except RecursionError:
            self.ctx.undet(f'{label}: recursion')
        finally:
            self.steps -= it.steps
        return []

    def site(self, name):
        """The function a finding is about."""
        m = self.cls.find_method
        root = self.p.classes['udapi.core.root.Root'].find_method
        doc = self.p.classes['udapi.core.document.Document'].find_method
        table = {'create_bundle': doc('create_bundle'), 'create_tree': m('create_tree'), 'add_tree': m('add_tree'), 'remove_bundle': m('remove'),
                 'remove_tree': root('remove')}
        return table.get(name) or m('add_tree')

    def judge(self, rule, label, fn, v, s):
        """Check a result of a client program; True if it is as it should be."""
        ctx = self.ctx
        if s.tainted:
            ctx.undet(f'{label}: {s.tainted[0]}')
            return False
        if is_c(v) and v[2] is None:
            return True
        if is_raise(v) and not s.facts:
            ctx.find(rule, fn.module.path, fn.lineno, fn.qual, f'{label}: {v[1][1]} is raised when the document is looked at')
        elif is_c(v) and isinstance(v[2], str) and not s.facts:
            ctx.find(rule, fn.module.path, fn.lineno, fn.qual, f'{label}: {v[2]}')
        else:
            ctx.undet(f'{label}: unknown result')
        return False

    def checked(self, rule, label, fn, w, s):
        res = self.call(label, 'check', [w], s)
        ok = bool(res)
        for v, s2 in res:
            ok = self.judge(rule, label, fn, v, s2) and ok
        if ok:
            self.ctx.ok(label + ': consistent')
        return ok

    def explore(self, label, func, args, kwargs, depth):
        ctx = self.ctx
        todo, seen = [], set()
        for v, s in self.call(label, func, [C(a) for a in args], None, kwargs):
            if s.tainted or is_raise(v) or s.facts:
                ctx.undet(f'{label}: {s.tainted[0] if s.tainted else "reading fails"}')
            elif self.checked('consistent', label, self.site('read'), v, s):
                todo.append((v, s, ()))
                seen.add(canon(s, v))
        for level in range(depth):
            after, todo = todo, []
            for w, s, path in after:
                n = self.call(label, 'size', [w], s)
                if len(n) != 1:
                    continue
                nb, nt = (x[2] for x in n[0][1].heap[n[0][0][1]].items)
                for name, args in operations(nb, nt, level < depth - 1):
                    ctx.count('operations followed')
                    here = label + ': ' + ', '.join(show(*x) for x in path + ((name, args),))
                    fn = self.site(name)
                    for v, s2 in self.call(here, 'op_' + name, [w] + [C(a) for a in args], s):
                        if s2.tainted:
                            ctx.undet(f'{here}: {s2.tainted[0]}')
                            continue
                        key = canon(s2, w)
                        if is_raise(v):
                            if key in seen:
                                ctx.ok(here + ': rejected, and nothing is changed')
                            elif s2.facts:
                                ctx.undet(f'{here}: unknown conditions')
                            elif key != canon(s, w):
                                ctx.find('rejected', fn.module.path, fn.lineno, fn.qual,
                                         f'{here}: the operation fails with {v[1][1]} but the document is changed')
                            continue
                        if not self.judge('operation', here, fn, v, s2):
                            continue
                        if key in seen:
                            ctx.count('states merged')
                            continue
                        seen.add(key)
                        ctx.count('states reached')
                        if self.checked('consistent', here, fn, w, s2) and level + 1 < depth:
                            todo.append((w, s2, path + ((name, args),)))

    def block(self, func, kwargs, name, content):
        ctx = self.ctx
        label = f'{func[6:]} {kwargs} on sentences {name}'
        ctx.count('runs of blocks')
        for v, s in self.call(label, func, [C(content)], None, kwargs):
            if s.tainted or is_raise(v) and s.facts:
                ctx.undet(f'{label}: {s.tainted[0] if s.tainted else "unknown conditions"}')
                continue
            if is_raise(v):
                ctx.count('runs rejected by the block')
                continue
            if v[0] != 'o' or s.heap[v[1]].kind != 'list':
                ctx.undet(f'{label}: unknown result')
                continue
            for i, w in enumerate(s.heap[v[1]].items):
                self.checked('blocks', label + (f' (document {i + 1})' if i else ''), self.block_site(func), w, s)

    def block_site(self, func):
        for name in ('util.split.Split', 'util.splitsentence.SplitSentence', 'util.joinsentence.JoinSentence', 'segment.merge.Merge',
                     'segment.simple.Simple', 'udpipe.base.Base', 'util.normalize.Normalize'):
            if name.rsplit('.', 1)[1].lower() == func[6:] or func[6:] == 'udpipe' and name.startswith('udpipe'):
                c = self.p.classes['udapi.block.' + name]
                return c.find_method('process_document') if 'process_document' in c.methods else c.find_method('process_bundle')
        return self.p.classes['udapi.core.basereader.BaseReader'].find_method('process_document')


def run(ctx):
    ctx.rule('consistent', 'in every state, numbers, identifiers, zones, addresses and owners of bundles and trees agree')
    ctx.rule('operation', 'an operation does what it says')
    ctx.rule('rejected', 'an operation that fails changes nothing')
    ctx.rule('blocks', 'blocks that change the list of bundles leave the document consistent')
    j = Judge(ctx)
    for func, kwargs in BLOCKS:
        for name, content in TEXTS:
            j.block(func, kwargs, name, content)
    for label, func, args, kwargs in STARTS:
        j.explore(label, func, args, kwargs, 3 if ctx.tier == 'thorough' else 2)
    ctx.floor('operations followed', 300)
