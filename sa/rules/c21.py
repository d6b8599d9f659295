"""C21: a scenario runs as it is written."""
import itertools

from ..absint import C, Obj, TRUE, Undetermined, is_c, is_raise
from ..system import System
from ..text import STDOUT, client, hole
from .c09 import Judge, show

EXPLANATION = ('Abstract interpretation of the runner with client blocks that record their calls (scenarios with up to three blocks and two '
               'readers; documents with up to three bundles, several zones, empty trees, words and empty nodes; all combinations of '
               'overridden methods), of the script bin/udapy with its options, of util.Eval and util.Filter with constant expressions on '
               'every tree of up to four words, and of the handling of input and output files, with opaque text; compared with the '
               'documented order and selection.')
TECHNIQUE = 'abstract interpretation with constant scenarios and shapes and opaque texts, compared with the documented order and selection'

CLIENT = '''
import sys
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.files import Files
from udapi.core.run import Run, _parse_command_line_arguments, create_block
from udapi.core.basereader import BaseReader
from udapi.block.util.eval import Eval
from udapi.block.util.filter import Filter


class Args:
    def __init__(self, scenario):
        self.scenario = scenario


class Client(Block):
    def __init__(self, name, log, **kwargs):
        super().__init__(**kwargs)
        self.name = name
        self.log = log

    def process_start(self):
        self.log.append((self.name, 'start'))

    def process_end(self):
        self.log.append((self.name, 'end'))

    def before_process_document(self, document):
        self.log.append((self.name, 'before', document.meta.get('number')))

    def after_process_document(self, document):
        self.log.append((self.name, 'after', document.meta.get('number')))


class Reader(Client):
    def __init__(self, docs, **kwargs):
        super().__init__(**kwargs)
        self.docs = docs
        self.done = 0
        self.finished = False

    def process_document(self, document):
        self.done += 1
        document.meta['number'] = (document.meta.get('number') or 0) + 1
        document.create_bundle()
        self.log.append((self.name, 'read', len(document.bundles)))
        self.finished = self.done >= self.docs


class Bundles(Client):
    def process_bundle(self, bundle):
        self.log.append(('bundle', bundle.bundle_id))


class Trees(Client):
    def process_tree(self, tree):
        self.log.append(('tree', tree.bundle.bundle_id, tree.zone))


class Nodes(Client):
    def process_node(self, node):
        self.log.append(('node', node.root.bundle.bundle_id, node.root.zone, node.ord))


class Empties(Client):
    def process_empty_node(self, empty_node):
        self.log.append(('empty', empty_node.root.bundle.bundle_id, empty_node.root.zone, empty_node.ord))


class NodesEmpties(Nodes, Empties):
    pass


class NodesAndTrees(Nodes):
    def process_tree(self, tree):
        self.log.append(('tree', tree.bundle.bundle_id, tree.zone))
        super().process_tree(tree)


class NodesAndBundles(NodesAndTrees):
    def process_bundle(self, bundle):
        self.log.append(('bundle', bundle.bundle_id))
        super().process_bundle(bundle)


class Entities(Client):
    def process_coref_entity(self, entity):
        self.log.append(('entity', entity.eid))


class Mentions(Client):
    def process_coref_mention(self, mention):
        self.log.append(('mention', mention.entity.eid, mention.head.ord))


class EntitiesAndMentions(Mentions):
    def process_coref_entity(self, entity):
        self.log.append(('entity', entity.eid))
        super().process_coref_entity(entity)


class MentionsAndNodes(Mentions, Nodes):
    pass


class Nothing(Client):
    pass


def make(kind, **kwargs):
    if kind == 'Bundles':
        return Bundles(**kwargs)
    if kind == 'Trees':
        return Trees(**kwargs)
    if kind == 'Nodes':
        return Nodes(**kwargs)
    if kind == 'Empties':
        return Empties(**kwargs)
    if kind == 'NodesEmpties':
        return NodesEmpties(**kwargs)
    if kind == 'NodesAndTrees':
        return NodesAndTrees(**kwargs)
    if kind == 'NodesAndBundles':
        return NodesAndBundles(**kwargs)
    if kind == 'Entities':
        return Entities(**kwargs)
    if kind == 'Mentions':
        return Mentions(**kwargs)
    if kind == 'EntitiesAndMentions':
        return EntitiesAndMentions(**kwargs)
    if kind == 'MentionsAndNodes':
        return MentionsAndNodes(**kwargs)
    return Nothing(**kwargs)


def arguments(tokens):
    names, args = _parse_command_line_arguments(list(tokens))
    return [tuple(names), tuple([tuple([(k, v) for k, v in a.items()]) for a in args])]


def scenario(blocks, refs):
    log = []
    made = []
    for i, (kind, n) in enumerate(blocks):
        if kind == 'reader':
            made.append(('r', Reader(name=i, log=log, docs=n), {}))
        else:
            made.append(('b', Bundles(name=i, log=log), {}))
    res = Run(Args(['x'])).run_blocks(made)
    log.append(tuple([block in [m[1] for m in made] for _, block, _ in res]))
    return log


def document(bundles):
    doc = Document()
    for bundle_id, trees in bundles:
        bundle = doc.create_bundle()
        bundle.bundle_id = bundle_id
        for zone, heads, empties, forms in trees:
            root = bundle.create_tree(zone)
            for form in forms:
                root.create_child(form=form)
            nodes = [root] + list(root.descendants)
            for i, h in enumerate(heads, 1):
                if h > i:
                    nodes[i].parent = nodes[h]
            for i, h in enumerate(heads, 1):
                nodes[i].parent = nodes[h]
            for i in empties:
                nodes[max(i, 1)].create_empty_child('dep', after=i > 0, form='E')
    return doc


def entities(doc, wanted):
    for eid, words in wanted:
        entity = doc.create_coref_entity(eid)
        for i in words:
            node = list(doc.nodes)[i]
            entity.create_mention(head=node, words=[node])


def left(doc):
    return tuple([(b.bundle_id, tuple([(t.zone, tuple([n.ord for n in t.descendants]), tuple([n.form for n in t.descendants]),
                                        tuple([n.parent.ord for n in t.descendants])) for t in b.trees])) for b in doc.bundles])


def dispatch(doc, kind, kwargs):
    log = []
    block = make(kind, name='b', log=log, **dict(kwargs))
    block.apply_on_document(doc)
    return [log, left(doc)]


def filtered(doc, kwargs):
    block = Filter(**dict(kwargs))
    block.apply_on_document(doc)
    return [left(doc), tuple([n.misc['Mark'] for n in doc.nodes])]


def evaluated(doc, kwargs):
    block = Eval(**dict(kwargs))
    block.run(doc)
    return True


def whole(tokens):
    Run(Args(list(tokens))).execute()
    return True


def names(pattern):
    files = Files(pattern)
    res = []
    while files.has_next_file():
        handle = files.next_filehandle()
        res.append((files.filename, files.file_number, handle.read()))
    res.append((files.next_filename(), files.filename, files.number_of_files))
    return res
'''


class Scenario(Judge):
    def __init__(self, ctx):
        super().__init__(ctx)
        client(ctx.p, CLIENT)
        self.disk, self.stdin, self.argv = {}, '', []

    def interpreter(self):
        return System(self.p, budget=600000, disk=self.disk, stdin=self.stdin, argv=self.argv)

    def fn(self, name):
        cls, _, method = name.rpartition('.')
        if name in self.p.functions:
            return self.p.functions[name]
        return self.p.classes[cls].find_method(method)

    def verdict(self, rule, fn, ok, msg):
        self.ctx.check(rule, ok, fn.module.path, fn.lineno, fn.qual, msg)

    def raised(self, label, func, args, st=None):
        """The result or the name of the exception; None if unknown."""
        res = self.call(label, func, args, st)
        if res is None:
            return None
        v, s = res
        if is_raise(v):
            return v[1][1], s
        try:
            return self.plain(v, s), s
        except ValueError:
            self.ctx.undet(f'{label}: unknown answer')
            return None


def lift(v):
    return ('tup', tuple(map(lift, v))) if isinstance(v, (tuple, list)) else C(v)


def run(ctx):
    ctx.rule('arguments', 'names and parameters of a scenario are told apart, each parameter belongs to the block before it')
    ctx.rule('order', 'blocks are started once, applied to every document in the order of the scenario until all readers are finished, and ended once')
    ctx.rule('once', 'a block visits every selected bundle, tree, word, empty node, entity and mention exactly once and in order')
    ctx.rule('selected', 'zones and if_empty_tree select the trees as documented')
    ctx.rule('filter', 'util.Filter keeps exactly the trees and subtrees that satisfy the condition')
    ctx.rule('eval', 'util.Eval runs the given code once for each selected object, in order')
    ctx.rule('options', 'the options of udapy add the documented blocks and parameters in the documented order')
    ctx.rule('files', 'the input files are those that the pattern names, in order; each document is written where the writer says')
    ctx.rule('trailing', 'the documents that are read are not followed by an empty one')
    j = Scenario(ctx)
    arguments(ctx, j)
    order(ctx, j)
    dispatch(ctx, j)
    selection(ctx, j)
    filters(ctx, j)
    evals(ctx, j)
    options(ctx, j)
    files(ctx, j)


# ---------------------------------------------------------------- arguments
def arguments(ctx, j):
    fn = j.fn('udapi.core.run._parse_command_line_arguments')
    values = ['', 'x', '0', '7', '42', '1.5', '-1', ' 1', '1 2', 'a=b', '==', '=x', 'true', 'a.b', '²', '1e3', 'node.form == "_"', 'x.y=1',
              '0x1', '1_0', '12a']
    cases = [[], ['read.Conllu'], ['b', 'x.C', 'b']]
    cases += [['B', f'k={v}'] for v in values]
    cases += [['B', f'k={v}', 'C', 'D', f'm={w}', 'n=q', f'k={v}'] for v, w in zip(values, values[3:] + values[:3])]
    cases += [['a=1'], ['=', 'B'], ['B', '='], ['B', 'k=1', 'k=2'], ['B', 'k=1', 'C', 'k=2', 'B', 'k=3']]
    for tokens in cases:
        got = j.raised(f'arguments {tokens}', 'arguments', [lift(tokens)])
        if got is None:
            continue
        ctx.count('argument lists')
        want = parsed(tokens)
        j.verdict('arguments', fn, got[0] == want or got[0] == 'RuntimeError' == want, f'{" ".join(tokens)!r} is read as {got[0]} instead of {want}')


def parsed(tokens):
    names, args = [], []
    for t in tokens:
        if '=' not in t:
            names.append(t)
            args.append({})
        elif not names:
            return 'RuntimeError'
        else:
            k, v = t.split('=', 1)
            args[-1][k] = int(v) if v.isdecimal() else v
    return [tuple(names), tuple(tuple(a.items()) for a in args)]


# ---------------------------------------------------------------- order
def order(ctx, j):
    fn = j.fn('udapi.core.run.Run.run_blocks')
    kinds = [('block', 0), ('reader', 1), ('reader', 2), ('reader', 3)]
    for n in range(1, 4):
        for blocks in itertools.product(kinds, repeat=n):
            if not any(k == 'reader' for k, _ in blocks) or n == 3 and ctx.tier != 'thorough' and hash3(blocks) % 3:
                continue
            got = j.raised(f'scenario {blocks}', 'scenario', [lift(blocks), C(0)])
            if got is None:
                continue
            ctx.count('scenarios')
            want = expected(blocks)
            j.verdict('order', fn, got[0] == want, f'the scenario {show_blocks(blocks)} calls {first_difference(got[0], want)}')
    # no reader: read.Conllu from the standard input
    for blocks, rest in (((('block', 0),), 1), ((('block', 0), ('block', 0)), 2)):
        j.stdin = f'1\t{hole(0)}' + '\t_' * 4 + '\t0' + '\t_' * 3 + '\n\n' + f'1\t{hole(1)}' + '\t_' * 4 + '\t0' + '\t_' * 3 + '\n\n'
        got = j.raised(f'scenario {blocks}', 'scenario', [lift(blocks), C(0)])
        j.stdin = ''
        if got is None:
            continue
        ctx.count('scenarios')
        want = [(i, 'start') for i in range(rest)]
        for i in range(rest):
            want += [(i, 'before', None), ('bundle', '1'), ('bundle', '2'), (i, 'after', None)]
        want += [(i, 'end') for i in range(rest)]
        ok = isinstance(got[0], list) and got[0][:-1] == want
        j.verdict('order', fn, ok, f'the scenario {show_blocks(blocks)} without a reader calls {first_difference(got[0], want)}')


def hash3(blocks):
    return sum(3 ** i * n + n for i, (_, n) in enumerate(blocks))


def show_blocks(blocks):
    return ' '.join(f'reader({n} documents)' if k == 'reader' else 'block' for k, n in blocks)


def first_difference(got, want):
    if not isinstance(got, list):
        return f'fails with {got}'
    for i, (a, b) in enumerate(itertools.zip_longest(got, want)):
        if a != b:
            return f'as step {i + 1}: {a} instead of {b}'
    return 'the same'


def expected(blocks):
    log = [(i, 'start') for i in range(len(blocks))]
    for r in range(max(n for k, n in blocks if k == 'reader')):
        number = None
        bundles = 0
        for i, (k, n) in enumerate(blocks):
            log.append((i, 'before', number))
            if k == 'reader':
                number = (number or 0) + 1
                bundles += 1
                log.append((i, 'read', bundles))
            else:
                log += [('bundle', str(b + 1)) for b in range(bundles)]
            log.append((i, 'after', number))
    log += [(i, 'end') for i in range(len(blocks))]
    return log + [(True,) * len(blocks)]


# ---------------------------------------------------------------- dispatch
SHAPES = {
    'no bundles': [],
    'one word': [('1', [('', (0,), ())])],
    'three words and empty nodes': [('1', [('', (2, 0, 2), (0, 1, 1))])],
    'two zones': [('1', [('en', (0, 1), ()), ('cs', (2, 0), (1,))]), ('2', [('cs', (0,), (0,)), ('en', (0, 1, 1), ())])],
    'three bundles': [('x', [('', (0,), ())]), ('y', []), ('z', [('', (0, 1), (2,)), ('de', (), ())])],
    'empty trees': [('1', [('en', (), ()), ('', (), ())]), ('2', [('', (0,), ()), ('en', (), ())])],
}
KINDS = ['Bundles', 'Trees', 'Nodes', 'Empties', 'NodesEmpties', 'NodesAndTrees', 'NodesAndBundles']


def built(j, name):
    bundles = [(bid, [(z, h, e, tuple(hole(100 * b + 10 * t + i) for i in range(len(h)))) for t, (z, h, e) in enumerate(trees)])
               for b, (bid, trees) in enumerate(SHAPES[name])]
    res = j.call(name, 'document', [lift(bundles)], None)
    return res if res is not None and not is_raise(res[0]) else None


def visits(kind, shape, zones, empty):
    """(log, trees that are left) or the name of an exception."""
    log, left = [], []
    for bid, trees in shape:
        if 'Bundles' in kind:
            log.append(('bundle', bid))
        kept = []
        for z, heads, empties in trees:
            chosen = zones == 'all' or z in zones.split(',')
            if kind == 'Bundles' or not chosen:
                kept.append((z, heads))
                continue
            if not heads and empty != 'process':
                if empty == 'delete':
                    continue
                kept.append((z, heads))
                if empty not in ('skip', 'skip_warn'):
                    return 'ValueError' if empty == 'nonsense' else 'Exception'
                continue
            kept.append((z, heads))
            if 'Trees' in kind or kind == 'NodesAndBundles':
                log.append(('tree', bid, z))
            if 'Nodes' in kind:
                log += [('node', bid, z, i + 1) for i in range(len(heads))]
            if 'Empties' in kind:
                log += [('empty', bid, z, o) for o in empty_ords(empties)]
        left.append((bid, tuple((z, tuple(range(1, len(h) + 1)), h) for z, h in kept)))
    return log, left


def empty_ords(empties):
    res, seen = [], {}
    for i in empties:
        seen[i] = seen.get(i, 0) + 1
        res.append(float(f'{i}.{seen[i]}'))
    return sorted(res)


def judge(ctx, j, rule, label, fn, kind, shape, st, zones, empty, want):
    kwargs = tuple((k, v) for k, v in (('zones', zones), ('if_empty_tree', empty)) if v is not None)
    got = j.raised(label, 'dispatch', [st[0], C(kind), lift(kwargs)], st[1])
    if got is None:
        return
    ctx.count('documents processed')
    if isinstance(want, str) or isinstance(got[0], str):
        j.verdict(rule, fn, got[0] == want, f'{label}: the result is {got[0] if isinstance(got[0], str) else "no exception"} instead of '
                  f'{want if isinstance(want, str) else "success"}')
        return
    log, left = got[0]
    steps = [('b', 'before', None)] + want[0] + [('b', 'after', None)]
    j.verdict(rule, fn, log == steps, f'{label} visits {first_difference(log, steps)}')
    rest = [(b, tuple((z, ords, heads) for z, ords, forms, heads in trees)) for b, trees in left]
    j.verdict(rule, fn, rest == want[1], f'{label}: the trees of the document become {rest} instead of {want[1]}')


def dispatch(ctx, j):
    fn = j.fn('udapi.core.block.Block.process_document')
    for name, shape in SHAPES.items():
        st = built(j, name)
        if st is None:
            ctx.undet(f'the document with {name} cannot be built')
            continue
        for kind in KINDS:
            judge(ctx, j, 'once', f'a block that processes {kind} of a document with {name}', fn, kind, shape, st, None, None,
                  visits(kind, shape, 'all', 'process'))
    st = built(j, 'two zones')
    if st is None:
        return
    got = j.raised('a block that processes nothing', 'dispatch', [st[0], C('Nothing'), lift(())], st[1])
    if got is not None:
        j.verdict('once', fn, got[0] == 'Exception', 'a block that processes nothing is not rejected')
    for wanted in ([], [('a', [0])], [('b', [1, 3]), ('a', [0, 2]), ('c', [])]):
        res = j.call('entities', 'entities', [st[0], lift(wanted)], st[1])
        if res is None or is_raise(res[0]):
            ctx.undet('entities cannot be created')
            continue
        ords = [i + 1 for _, trees in SHAPES['two zones'] for z, heads, _ in trees for i in range(len(heads))]
        nodes = visits('Nodes', SHAPES['two zones'], 'all', 'process')[0]
        made = sorted(wanted)
        es = [('entity', e) for e, _ in made]
        ms = [('mention', e, ords[i]) for e, ws in made for i in ws]
        both = [x for e, ws in made for x in [('entity', e)] + [('mention', e, ords[i]) for i in ws]]
        for kind, want in (('Entities', es), ('Mentions', ms), ('EntitiesAndMentions', both), ('MentionsAndNodes', ms + nodes)):
            label = f'a block that processes {kind} of {wanted}'
            got = j.raised(label, 'dispatch', [st[0], C(kind), lift(())], res[1])
            if got is None:
                continue
            ctx.count('documents processed')
            steps = [('b', 'before', None)] + want + [('b', 'after', None)]
            log = got[0] if isinstance(got[0], str) else got[0][0]
            j.verdict('once', fn, log != 'AttributeError' and sorted(map(str, log)) == sorted(map(str, steps)),
                      f'{label} visits {first_difference(log, steps)}')
    ctx.floor('documents processed', 40)


def selection(ctx, j):
    fn = j.fn('udapi.core.block.Block._should_process_tree')
    for name, zoneses in (('two zones', ['en', 'cs', 'en,cs', 'cs,en', 'de', '', 'e', 'en,', 'all', 'encs']),
                          ('empty trees', ['en', '', ',en', 'en_x', 'all']), ('three bundles', ['', 'de', 'all'])):
        st = built(j, name)
        if st is None:
            continue
        for zones in zoneses:
            for empty in ('process', 'skip', 'skip_warn', 'delete', 'fail', 'nonsense'):
                if name == 'two zones' and empty not in ('process', 'delete'):
                    continue
                for kind in ('Trees', 'NodesEmpties', 'NodesAndBundles'):
                    if kind != 'Trees' and (empty in ('skip_warn', 'nonsense') or zones in ('cs,en', 'e')):
                        continue
                    judge(ctx, j, 'selected', f'a block that processes {kind} of a document with {name}, zones={zones} if_empty_tree={empty}',
                          fn, kind, SHAPES[name], st, zones, empty, visits(kind, SHAPES[name], zones, empty))


# ---------------------------------------------------------------- util.Filter
def chosen(letters):
    return 'node.form in (' + ''.join(f'"{c}",' for c in letters) + ')'


def keep(heads, forms, dead, rehang):
    """(ords, forms, heads) after words were removed with their subtrees or with their children rehanged."""
    n = len(heads)

    def up(i):
        while i:
            i = heads[i - 1]
            yield i
    gone = {i for i in range(1, n + 1) if i in dead or not rehang and any(a in dead for a in up(i))}
    stay = [i for i in range(1, n + 1) if i not in gone]
    new = {0: 0, **{i: k for k, i in enumerate(stay, 1)}}
    return tuple(range(1, len(stay) + 1)), tuple(forms[i - 1] for i in stay), tuple(new[next(a for a in up(i) if a not in gone)] for i in stay)


def filters(ctx, j):
    fn = j.fn('udapi.block.util.filter.Filter.process_tree')
    trees = [h for n in (1, 2, 3) for h in all_trees(n)]
    if ctx.tier == 'thorough':
        trees += all_trees(4)
    else:
        trees += [(2, 3, 4, 0), (0, 1, 2, 3), (3, 4, 0, 3), (0, 1, 1, 1)]
    for heads in trees:
        n = len(heads)
        forms = tuple(hole(i) for i in range(1, n + 1))
        other = ('', (0, 1), (), (hole(60), hole(61)))
        st = j.call(f'heads {heads}', 'document', [lift([('1', [('cs', heads, (), forms), ('en',) + other[1:]])])], None)
        if st is None or is_raise(st[0]):
            ctx.undet(f'heads {heads}: the document cannot be built')
            continue
        for k, s in enumerate(itertools.product((0, 1), repeat=n)):
            picked = {i for i in range(1, n + 1) if s[i - 1]}
            if n == 4 and ctx.tier != 'thorough' and k % 3:
                continue
            one_filter(ctx, j, fn, st, heads, forms, picked)
    ctx.floor('filters', 300)


def all_trees(n):
    from .c09 import trees
    return trees(n)


def up_of(heads, i):
    while i:
        i = heads[i - 1]
        yield i


def one_filter(ctx, j, fn, st, heads, forms, picked):
    n = len(heads)
    cond = chosen([forms[i - 1] for i in sorted(picked)])
    whole = tuple(range(1, n + 1)), forms, heads
    none = [''] * n
    tree_cond = f'len(tree.descendants) == {len(picked)}'
    same = len(picked) == n
    others = {i for i in range(1, n + 1) if i not in picked}
    marks = ['x' if i in picked else '' for i in range(1, n + 1)]
    rehung = keep(heads, forms, others, True) if picked else None
    cases = [({'delete_subtree': cond}, keep(heads, forms, picked, False), None),
             ({'delete_tree_if_node': cond}, None if picked else whole, None),
             ({'keep_tree_if_node': cond}, whole if picked else None, none),
             ({'keep_tree_if_node': cond, 'mark': 'x'}, whole if picked else None, marks),
             ({'keep_node': cond}, rehung, None),
             ({'delete_tree': tree_cond}, None if same else whole, None),
             ({'keep_tree': tree_cond}, whole if same else None, None),
             ({'keep_tree': tree_cond, 'delete_tree_if_node': 'False', 'keep_node': 'node.form != "x"'}, whole if same else None, None),
             ({'keep_tree_if_node': cond, 'keep_node': cond}, rehung, None),
             ({'delete_subtree': cond, 'keep_node': cond}, None, None),
             ({}, whole, None)]
    for kwargs, want, want_marks in cases:
        label = f'heads {heads}, words {sorted(picked)} satisfy the condition, util.Filter {" ".join(k for k in kwargs)}'
        got = j.raised(label, 'filtered', [st[0], lift(tuple(dict(kwargs, zones='cs').items()))], st[1])
        if got is None:
            continue
        ctx.count('filters')
        if isinstance(got[0], str):
            j.verdict('filter', fn, False, f'{label}: {got[0]} is raised')
            continue
        (left, marked), _ = got
        cs = [(ords, fs, hs) for z, ords, fs, hs in left[0][1] if z == 'cs']
        en = [t for t in left[0][1] if t[0] == 'en']
        j.verdict('filter', fn, len(en) == 1 and en[0][1:] == ((1, 2), (hole(60), hole(61)), (0, 1)), f'{label}: a tree of another zone is changed')
        j.verdict('filter', fn, cs == ([want] if want is not None else []),
                  f'{label}: the tree becomes {show_tree(cs)} instead of {show_tree([want] if want is not None else [])}')
        if want_marks is not None and want is not None:
            j.verdict('filter', fn, list(marked[:n]) == want_marks, f'{label}: the words have the marks {marked[:n]} instead of {want_marks}')
    label = f'heads {heads}, words {sorted(picked)} satisfy the condition, util.Filter keep_subtree'
    got = j.raised(label, 'filtered', [st[0], lift((('keep_subtree', cond), ('zones', 'cs')))], st[1])
    if got is None:
        return
    ctx.count('filters')
    if isinstance(got[0], str):
        j.verdict('filter', fn, False, f'{label}: {got[0]} is raised')
        return
    cs = [(ords, fs, hs) for z, ords, fs, hs in got[0][0][0][1] if z == 'cs']
    kept = [i for i in range(1, n + 1) if i in picked or any(a in picked for a in up_of(heads, i))]
    if not kept:
        j.verdict('filter', fn, cs == [], f'{label}: the tree is not deleted')
        return
    fs = tuple(forms[i - 1] for i in kept)
    j.verdict('filter', fn, len(cs) == 1 and cs[0][1] == fs, f'{label}: the tree becomes {show_tree(cs)} instead of the words {kept}')
    if len(cs) == 1 and cs[0][1] == fs:
        for new, i in enumerate(kept):
            h = cs[0][2][new]
            inside = heads[i - 1] in kept
            ok = h == 0 if not inside else h == kept.index(heads[i - 1]) + 1 or i in picked and h == 0
            j.verdict('filter', fn, ok, f'{label}: word {i} is attached to {h} in {show_tree(cs)}')


def show_tree(trees):
    return 'words ' + ' '.join(f'{ord(f) - 0xE000}<-{h}' if len(f) == 1 else f'?<-{h}' for f, h in zip(trees[0][1], trees[0][2])) if trees else 'deleted'


# ---------------------------------------------------------------- util.Eval
CODE = {'start': 'print("start")', 'before_doc': 'print("before_doc", len(doc.bundles))', 'doc': 'print("doc", len($.bundles))',
        'before_bundle': 'print("before_bundle", bundle.bundle_id)', 'bundle': 'print("bundle", this.bundle_id)',
        'tree': 'print("tree", $.zone, bundle.bundle_id, len(doc.bundles))', 'node': 'print("node", $.form, root.zone, tree.bundle.bundle_id)',
        'after_bundle': 'print("after_bundle", bundle.bundle_id)', 'after_doc': 'print("after_doc", len(document.bundles))',
        'end': 'print("end")', 'coref_entity': 'print("entity", $.eid)', 'coref_mention': 'print("mention", $.head.form, entity.eid)'}


def expected_output(params, shape, zones, empty_nodes, wanted):
    forms = {(b, t): [hole(100 * b + 10 * t + i) for i in range(len(h))] for b, (_, trees) in enumerate(shape) for t, (_, h, _) in enumerate(trees)}
    out = []

    def say(name, *args):
        if name in params:
            out.append(' '.join((name.replace('coref_', ''),) + tuple(map(str, args))))
    size = len(shape)
    say('start')
    say('before_doc', size)
    say('doc', size)
    if set(params) & {'before_bundle', 'bundle', 'after_bundle', 'tree', 'node'}:
        for b, (bid, trees) in enumerate(shape):
            say('before_bundle', bid)
            say('bundle', bid)
            for t, (z, heads, empties) in enumerate(trees):
                if zones == 'all' or z in zones.split(','):
                    say('tree', z, bid, size)
                    words = [(float(i + 1), f) for i, f in enumerate(forms[b, t])]
                    if empty_nodes:
                        words += [(o, 'E') for o in empty_ords(empties)]
                    for _, f in sorted(words):
                        say('node', f, z, bid)
            say('after_bundle', bid)
    every = [f for b, (_, trees) in enumerate(shape) for t, _ in enumerate(trees) for f in forms[b, t]]
    for eid, ws in wanted:
        say('coref_entity', eid)
        for w in ws:
            say('coref_mention', every[w], eid)
    say('after_doc', size)
    say('end')
    return ''.join(x + '\n' for x in out)


def evals(ctx, j):
    fn = j.fn('udapi.block.util.eval.Eval.process_document')
    sets = [(k,) for k in CODE] + list(itertools.combinations(CODE, 2)) + [tuple(CODE), tuple(k for k in CODE if k != 'bundle')]
    if ctx.tier == 'thorough':
        sets += list(itertools.combinations(CODE, 3))
    for name in ('two zones', 'three words and empty nodes', 'three bundles'):
        base = built(j, name)
        if base is None:
            continue
        wanted = [('a', [0, 2]), ('b', [1])] if name != 'three bundles' else []
        res = j.call('entities', 'entities', [base[0], lift(wanted)], base[1])
        if res is None or is_raise(res[0]):
            ctx.undet('entities cannot be created')
            continue
        for i, params in enumerate(sets):
            for zones, empty_nodes in (('all', False), ('all', True), ('en', False)):
                if (zones, empty_nodes) != ('all', False) and (len(params) == 2 and i % 3 or not set(params) & {'node', 'tree'}):
                    continue
                kwargs = {k: CODE[k] for k in params}
                label = f'util.Eval {" ".join(params)} zones={zones} empty_nodes={empty_nodes} on a document with {name}'
                got = j.call(label, 'evaluated', [base[0], lift(tuple(dict(kwargs, zones=zones, empty_nodes=empty_nodes).items()))], res[1])
                printed(ctx, j, 'eval', label, fn, got, expected_output(params, SHAPES[name], zones, empty_nodes, wanted))
    # counters and code that is not expanded
    base = built(j, 'two zones')
    if base is None:
        return
    for kwargs, want in (
            ({'node': 'count_$.root.zone += 1; count_"all" += 2', 'end': 'print(self.count["cs"], self.count["en"], count_"all" )'}, '3 5 16\n'),
            ({'node': 'print("$.", node.ord)', 'expand_code': False, 'zones': 'cs'}, '$. 1\n$. 2\n$. 1\n'),
            ({'tree': 'tree.add_comment("x"); print(len(tree.descendants))', 'zones': 'en'}, '2\n3\n'),
            ({'tree': 'print([n.ord for n in tree.descendants])', 'zones': 'en'}, '[1, 2]\n[1, 2, 3]\n')):
        label = f'util.Eval {kwargs}'
        got = j.call(label, 'evaluated', [base[0], lift(tuple(kwargs.items()))], base[1])
        printed(ctx, j, 'eval', label, fn, got, want)
    ctx.floor('programs run', 100)


def text_of(st, oid=STDOUT):
    v = st.heap[oid].attrs.get('text', C(''))
    return v[2] if is_c(v) else None


def printed(ctx, j, rule, label, fn, got, want, files=None):
    if got is None:
        return
    ctx.count('programs run')
    v, s = got
    if is_raise(v):
        j.verdict(rule, fn, want == v[1][1], f'{label}: {v[1][1]} is raised' + (f' instead of {want}' if want else ''))
        return
    out = text_of(s)
    if out is None:
        ctx.undet(f'{label}: unknown output')
        return
    j.verdict(rule, fn, out == want, f'{label}: the output is {show(out)} instead of {show(want)}')
    if files is not None:
        made = {k: x[2] if is_c(x) else None for k, x in System.written(None, s).items()}
        if None in made.values():
            ctx.undet(f'{label}: unknown content of a file')
        else:
            j.verdict(rule, fn, made == files, f'{label}: the written files are {show(repr(made))} instead of {show(repr(files))}')


# ---------------------------------------------------------------- the command line
FLAGS = {'-s': ['write.Conllu'], '-T': ['write.TextModeTrees', 'color=1'], '-H': ['write.TextModeTreesHtml', 'color=1'],
         '-A': ['attributes=form,lemma,upos,xpos,feats,deprel,misc'], '-C': ['print_comments=1'], '-M': ['marked_only=1'],
         '-N': ['color=0']}
LONG = {'-s': '--save', '-T': '--save_text_mode_trees', '-H': '--save_html', '-A': '--save_all_attributes', '-C': '--save_comments',
        '-M': '--marked_only', '-N': '--no_color'}
RECORDER = CLIENT + '''

class Recorder:
    def __init__(self, args):
        self.args = args

    def execute(self):
        for token in self.args.scenario:
            print(token)
'''


def options(ctx, j):
    module = ctx.p.modules.get('bin.udapy')
    if module is None:
        ctx.undet('there is no bin/udapy')
        return

    class Script:
        def __init__(self):
            self.module, self.lineno, self.qual = module, 1, 'bin/udapy'
    fn = Script()
    client(ctx.p, RECORDER)
    base = ['read.Conllu', 'files=x', 'util.Eval', 'node=1']
    cases = []
    for n in range(len(FLAGS) + 1):
        for flags in itertools.combinations(FLAGS, n):
            if n in (0, 1, 2, 7) or ctx.tier == 'thorough':
                cases.append((list(flags), flags, []))
    cases += [(['-' + ''.join(f[1] for f in fl)], tuple(fl), []) for fl in (['-H', '-A', '-M'], ['-T', '-N'], ['-N', '-T'], ['-T', '-C', '-A', '-M', '-N'])]
    cases += [([LONG[f]], (f,), []) for f in LONG]
    cases += [(['-T', '-N', '-X', 'attributes=form,misc', '-X', 'layout=align'], ('-T', '-N'), ['attributes=form,misc', 'layout=align']),
              (['-X', 'write.Html', '--extra', 'zones=cs', '-s'], ('-s',), ['write.Html', 'zones=cs']),
              (['-q', '--gc'], (), []), (['-v'], (), []), (['--quiet', '-s'], ('-s',), []), (['--verbose', '--gc', '-T'], ('-T',), [])]
    for argv, flags, extra in cases:
        label = f'udapy {" ".join(argv)} {" ".join(base)}'
        it = System(ctx.p, budget=300000, argv=argv + base, models={'udapi.core.run.Run':
                    lambda i, args, kwargs, st, node: i.instantiate('@client.Recorder', args, kwargs, st, node)})
        try:
            res = it.script(module, it.start())
        except Undetermined as e:
            ctx.undet(f'{label}: {e}')
            continue
        if len(res) != 1 or res[0][1].facts:
            ctx.undet(f'{label}: unknown conditions')
            continue
        fl, s = res[0]
        out = text_of(s)
        if out is None:
            ctx.undet(f'{label}: unknown scenario')
            continue
        ctx.count('command lines')
        tokens = list(base)
        for f in FLAGS:
            if f in flags:
                tokens += FLAGS[f]
        tokens += extra
        want, got = parsed(tokens), parsed(out.split('\n')[:-1])
        ok = fl is None and isinstance(got, list) and got[0] == want[0] and [dict(a) for a in got[1]] == [dict(a) for a in want[1]]
        j.verdict('options', fn, ok, f'{label} runs {got} instead of {want}' if fl is None else f'{label} fails with {fl[1][1]}')
    ctx.floor('command lines', 30)


# ---------------------------------------------------------------- files
def files(ctx, j):
    client(ctx.p, CLIENT)
    fn = j.fn('udapi.core.files.Files._token_to_filenames')
    t = [hole(i) + '\n' for i in range(12)]
    j.disk = {'a': t[0], 'b.txt': t[1], 'd1/c1.txt': t[2], 'd1/c2.txt': t[3], 'd2/c1.txt': t[4], 'x.gz': ('gz', t[5]), 'd1/y.xz': ('xz', t[6]),
              'z.bz2': ('bz2', t[7]), '/abs/e': t[8], 'lists/l': 'e1\n/abs/e\nsub/e2\n', 'lists/e1': t[9], 'lists/sub/e2': t[10], 'top': 'a\nd1/c1.txt\n',
              '/abs/l': 'e\n/abs/e\na\n', '/abs/a': t[11], 'bad.txt': ('gz', t[0])}
    cases = [('a', ['a']), ('a b.txt', ['a', 'b.txt']), ('b.txt,a', ['b.txt', 'a']), ('a, b.txt,,a', ['a', 'b.txt', 'a']), (' a ', ['a']),
             ('!d1/*.txt', ['d1/c1.txt', 'd1/c2.txt']), ('!d?/c1.txt', ['d1/c1.txt', 'd2/c1.txt']), ('!*.txt a', 'UnicodeDecodeError'),
             ('!d?/*.txt', ['d1/c1.txt', 'd1/c2.txt', 'd2/c1.txt']), ('a !d2/*', ['a', 'd2/c1.txt']), ('!nothing*', 'RuntimeError'), ('', 'ValueError'),
             ('x.gz', ['x.gz']), ('d1/y.xz z.bz2 a', ['d1/y.xz', 'z.bz2', 'a']), ('missing', 'FileNotFoundError'),
             ('@lists/l', ['lists/e1', '/abs/e', 'lists/sub/e2']), ('@top', ['a', 'd1/c1.txt']), ('@/abs/l', ['/abs/e', '/abs/e', '/abs/a']),
             ('b.txt @top !d2/*', ['b.txt', 'a', 'd1/c1.txt', 'd2/c1.txt']), ('@missing', 'FileNotFoundError')]
    for pattern, want in cases:
        got = j.raised(f'files={pattern}', 'names', [C(pattern)])
        file_verdict(ctx, j, fn, f'files={pattern}', got, want)
    j.stdin = 'a\nb.txt\n'
    got = j.raised('files=@-', 'names', [C('@-')])
    file_verdict(ctx, j, fn, 'files=@- with a list on the standard input', got, ['a', 'b.txt'])
    j.stdin = t[0]
    for pattern, at in (('-', 0), ('a -', 1), ('- a', 0)):
        got = j.raised(f'files={pattern}', 'names', [C(pattern)])
        if got is not None and isinstance(got[0], list):
            j.verdict('files', fn, [x[2] for x in got[0][:-1]][at] == t[0], f'files={pattern}: the standard input is not read in its place')
    writing(ctx, j, t)


def file_verdict(ctx, j, fn, label, got, want):
    if got is None:
        return
    ctx.count('file patterns')
    if isinstance(want, str) or isinstance(got[0], str):
        j.verdict('files', fn, got[0] == want, f'{label}: {got[0] if isinstance(got[0], str) else "no exception"} instead of {want}')
        return
    names = [x[0] for x in got[0][:-1]]
    j.verdict('files', fn, names == want, f'{label} names the files {names} instead of {want}')
    if names == want:
        texts = [j.disk[f][1] if isinstance(j.disk[f], tuple) else j.disk[f] for f in names]
        j.verdict('files', fn, [x[1:] for x in got[0][:-1]] == [(i, x) for i, x in enumerate(texts, 1)], f'{label}: another file or number is current')
        j.verdict('files', fn, got[0][-1] == (None, None, len(want)), f'{label}: there is a file after the last one')


def writing(ctx, j, t):
    fn = j.fn('udapi.core.basewriter.BaseWriter.before_process_document')
    j.stdin = t[0] + t[1] + t[2]
    j.disk = {'a.txt': t[3] + t[4], 'd/b.txt': t[5], 'd/c.x.txt': t[6]}
    stdin, a, b = j.stdin, t[3] + t[4], t[5]
    ab = 'read.Sentences files=a.txt,d/b.txt'
    for scenario, out, made in (
            ('read.Sentences write.Sentences', stdin, {}),
            ('read.Sentences bundles_per_doc=1 write.Sentences', stdin, {}),
            ('read.Sentences bundles_per_doc=2 write.Sentences', stdin, {}),
            ('read.Sentences bundles_per_doc=1 write.Sentences files=x,y,z,-', '', {'x': t[0], 'y': t[1], 'z': t[2]}),
            ('read.Sentences bundles_per_doc=2 write.Sentences files=x,-', t[2], {'x': t[0] + t[1]}),
            ('read.Sentences bundles_per_doc=1 write.Sentences files=x,y', 'RuntimeError', None),
            (ab + ' write.Sentences', a + b, {}),
            (ab + ' merge=1 write.Sentences files=x', '', {'x': a + b}),
            (ab + ' write.Sentences files=x,-', b, {'x': a}),
            (ab + ' write.Sentences path=out', '', {'out/a.txt': a, 'out/b.txt': b}),
            (ab + ' write.Sentences path=out/', '', {'out/a.txt': a, 'out/b.txt': b}),
            (ab + ' write.Sentences path=*.new', '', {'a.new': a, 'd/b.new': b}),
            (ab + ' write.Sentences path=out/*.new', '', {'out/a.new': a, 'out/b.new': b}),
            (ab + ' write.Sentences overwrite=1', '', {'a.txt': a, 'd/b.txt': b}),
            (ab + ' write.Sentences files=x,y write.Sentences', a + b, {'x': a, 'y': b}),
            (ab + ' write.Sentences write.Sentences files=x,y', a + b, {'x': a, 'y': b}),
            (ab + ' write.Sentences path=p write.Sentences path=q', '', {'p/a.txt': a, 'p/b.txt': b, 'q/a.txt': a, 'q/b.txt': b}),
            ('read.Sentences files=!d/* write.Sentences path=*.new', '', {'d/b.new': b, 'd/c.x.new': t[6]}),
            (ab + ' util.Eval start=print("s") tree=print(tree.text) end=print("e") write.Sentences files=x,y', 's\n' + a + b + 'e\n', {'x': a, 'y': b}),
            (ab + ' util.Eval tree=tree.text="q" write.Sentences', 'q\nq\nq\n', {}),
            (ab + ' write.Sentences files=x,y util.Eval doc=print("d")', 'd\nd\n', {'x': a, 'y': b}),
            ('read.Sentences write.Sentences files=x overwrite=1', 'ValueError', None)):
        label = f'udapy {scenario}'
        got = j.call(label, 'whole', [lift(scenario.split(' '))], None)
        printed(ctx, j, 'files', label, fn, got, out, made)
    # the last document is not followed by an empty one
    reader = j.fn('udapi.core.basereader.BaseReader.process_document')
    scenario = 'read.Sentences bundles_per_doc=1 write.Sentences files=x,y,z'
    got = j.call(f'udapy {scenario}', 'whole', [lift(scenario.split(' '))], None)
    if got is not None:
        j.verdict('trailing', reader, not is_raise(got[0]), f'udapy {scenario} on three sentences: there are more documents than sentences')
    j.stdin, j.disk = '', {}
