"""C04: an edit that is rejected with an error leaves everything as it was."""
from ..absint import C, NONE, O, Obj, S, gap
from ..tree import AT, NODE, NODE_Q, ROOT_Q, STRUCT, add_list, operations
from .. import worlds as W

EXPLANATION = ('Abstract interpretation of every public editing operation on trees, bundles, documents, mentions, entities and '
               'bridging links, with arguments in every relevant relation to the edited object; wherever a path ends in an '
               'exception, the whole abstract heap (links, lists, attributes) is compared with the heap before the call.')
TECHNIQUE = 'abstract interpretation with heap summarisation; heap comparison on exceptional exits'

# lazily filled caches: a value computed on demand is not a change
CACHES = {'_feats', '_misc', '_other'}


def changed(st, pre, attrs=None):
    """The first difference between the heap before and after, among the objects that existed before."""
    for oid, o in pre.heap.items():
        if o.kind == 'frame' or oid == 'ARG':
            continue
        n = st.heap.get(oid)
        if n is None or n is o:
            continue
        if o.kind == 'inst':
            for a in set(o.attrs) | set(n.attrs):
                if attrs is not None and a not in attrs or a in CACHES and o.attrs.get(a) == NONE:
                    continue
                if a == '_sent_id' and o.attrs.get(a, NONE)[-1] == '?':
                    continue        # computed on demand when it is missing
                if o.attrs.get(a) != n.attrs.get(a):
                    return f'{a.lstrip("_")} of {name(oid)} changed'
        elif o.items != n.items and not same_nonempty(o.items, n.items):
            return f'{name(oid)} changed'
    for e in st.trace:
        if e[0] in ('write', 'mutate') and e[1] in pre.heap and pre.heap[e[1]].weak:
            if attrs is None or e[0] == 'mutate' or e[2] in attrs:
                if not (e[0] == 'write' and e[2] in CACHES | {'_sent_id'}):
                    return f'{e[2]} of some other object changed'
    return None


def same_nonempty(a, b):
    """The lists differ only in what a branch learned about their unnamed rest."""
    from ..absint import is_gap
    strip = lambda items: tuple(x[:3] if is_gap(x) else x for x in items)
    if strip(a) == strip(b):
        return True
    return tuple(x for x in a if not is_gap(x)) == tuple(x for x in b if not is_gap(x)) and \
        {x[1] for x in b if is_gap(x)} <= {x[1] for x in a if is_gap(x)} if all(isinstance(x, tuple) for x in a + b) else False


NAMES = {'TS': 'the list of trees of the bundle', 'BS': 'the list of bundles', 'EMS': 'the list of mentions of the entity',
         'GMS': 'the list of mentions of the other entity', 'MW': 'the list of words of the mention', 'BLD': 'the list of links',
         'E2E': 'the mapping of entities', 'D': 'the document', 'BR': 'the bundle', 'K': 'the mention', 'E': 'the entity'}


def name(oid):
    if oid in NAMES:
        return NAMES[oid]
    for pre, what in (('L', 'the children of '), ('DS', 'the nodes of tree '), ('MW', 'the multiword tokens of tree '),
                      ('ME', 'the mentions of node '), ('EN', 'the empty nodes of tree ')):
        if oid.startswith(pre) and len(oid) == len(pre) + 1:
            return what + oid[len(pre):]
    return oid


def edits(p):
    """(label, function, forest, go) of editing operations outside the tree structure."""
    cls = p.classes

    def setter(c, attr):
        return next((cls[q].find_setter(attr) for q in (c,) if q in cls), None)

    def meth(c, m):
        return cls[c].find_method(m) if c in cls else None
    # bundles, zones, ids
    for zone in (NONE, S('newzone', 'str'), C('')):
        f = W.world(p)
        f.st.heap['Q'].attrs['_zone'] = zone
        f.pre = f.st.fork()
        m = meth(W.BUNDLE_Q, 'add_tree')
        yield W.run(p, f'bundle.add_tree(tree with zone {zone[-1] if zone != NONE else None!r})', m, f,
                    lambda it, st, m=m: it.call_func(m, [O('BR'), O('Q')], {}, st, AT))
        m = meth(W.BUNDLE_Q, 'create_tree')
        f = W.world(p)
        yield W.run(p, 'bundle.create_tree(zone)', m, f,
                    lambda it, st, m=m, zone=zone: it.call_func(m, [O('BR'), zone], {}, st, AT))
        if zone != NONE:
            f = W.world(p)
            yield W.run(p, 'tree.zone = zone', setter(ROOT_Q, 'zone'), f,
                        lambda it, st, zone=zone: it.setattr(O('R'), 'zone', zone, st, NODE))
    for sid in (C('x'), C('x/en'), C('x/'), C('x/EN'), S('sid', 'str')):
        f = W.world(p)
        f.st.heap['R'].attrs['_sent_id'] = S('oldsid', 'str')
        f.pre = f.st.fork()
        yield W.run(p, f'tree.sent_id = {sid[2] if sid[0] == "c" else "unknown"!r}', setter(ROOT_Q, 'sent_id'), f,
                    lambda it, st, sid=sid: it.setattr(O('R'), 'sent_id', sid, st, NODE))
        f = W.world(p)
        yield W.run(p, 'bundle.bundle_id = id', setter(W.BUNDLE_Q, 'bundle_id'), f,
                    lambda it, st, sid=sid: it.setattr(O('BR'), 'bundle_id', sid, st, NODE))
    # mentions
    for label, words in (('[]', []), ('[head]', ['A']), ('[head, new]', ['A', 'Y']), ('[other, new]', ['X', 'Y']),
                         ('[new]', ['N']), ('[head, old, new]', ['A', 'X', 'Y']), ('[new, some]', ['N', None])):
        f = W.world(p)
        arg = [O(w) if w else gap('some', O('wdR')) for w in words]
        add_list(f.st, 'ARG', arg)
        yield W.run(p, f'mention.words = {label}', setter(W.MENTION_Q, 'words'), f,
                    lambda it, st: it.setattr(O('K'), 'words', O('ARG'), st, NODE))
        for head in ('A', 'N', None):
            f = W.world(p)
            add_list(f.st, 'ARG', arg)
            m = meth(W.ENTITY_Q, 'create_mention')
            yield W.run(p, f'entity.create_mention(head={head}, words={label})', m, f,
                        lambda it, st, m=m, head=head: it.call_func(m, [O('E'), O(head) if head else NONE, O('ARG')], {}, st, AT))
        m = meth(W.ENTITY_Q, 'create_mention')
        f = W.world(p)
        add_list(f.st, 'ARG', arg)
        yield W.run(p, f'entity.create_mention(words={label}, span)', m, f,
                    lambda it, st, m=m: it.call_func(m, [O('E'), NONE, O('ARG'), S('span', 'str')], {}, st, AT))
        f = W.world(p)
        add_list(f.st, 'ARG', arg)
        yield W.run(p, f'CorefMention({label}, head, entity)', meth(W.MENTION_Q, '__init__'), f,
                    lambda it, st: it.instantiate(W.MENTION_Q, [O('ARG'), O('A'), O('E')], {}, st, AT))
    m = meth(W.ENTITY_Q, 'create_mention')
    for head in ('A', None):
        f = W.world(p)
        yield W.run(p, f'entity.create_mention(head={head}, span)', m, f,
                    lambda it, st, head=head: it.call_func(m, [O('E'), O(head) if head else NONE, NONE, S('span', 'str')], {}, st, AT))
        f = W.world(p)
        yield W.run(p, f'entity.create_mention(head={head})', m, f,
                    lambda it, st, head=head: it.call_func(m, [O('E'), O(head) if head else NONE], {}, st, AT))
    f = W.world(p)
    yield W.run(p, 'mention.span = span', setter(W.MENTION_Q, 'span'), f,
                lambda it, st: it.setattr(O('K'), 'span', S('span', 'str'), st, NODE))
    for h in ('A', 'X', 'N'):
        f = W.world(p)
        yield W.run(p, f'mention.head = {h}', setter(W.MENTION_Q, 'head'), f,
                    lambda it, st, h=h: it.setattr(O('K'), 'head', O(h), st, NODE))
    for e in (O('G'), O('E'), NONE):
        f = W.world(p)
        yield W.run(p, f'mention.entity = {e[1] if e != NONE else None}', setter(W.MENTION_Q, 'entity'), f,
                    lambda it, st, e=e: it.setattr(O('K'), 'entity', e, st, NODE))
    # entities
    f = W.world(p)
    yield W.run(p, 'entity.eid = eid', setter(W.ENTITY_Q, 'eid'), f,
                lambda it, st: it.setattr(O('E'), 'eid', S('neweid', 'str'), st, NODE))
    for eid in (S('neweid', 'str'), C('a b')):
        f = W.world(p)
        m = meth(W.DOC_Q, 'create_coref_entity')
        yield W.run(p, 'document.create_coref_entity(eid)', m, f,
                    lambda it, st, m=m, eid=eid: it.call_func(m, [O('D'), eid], {}, st, AT))
    # bridging
    for trg in ('E', 'G'):
        for label, op in (('insert', '__setitem__'), ('insert', 'insert')):
            m = meth(W.BRIDGE_Q, op)
            f = W.world(p)
            f.st.heap['PAIR'] = Obj('list', items=(O(trg), S('rel', 'str')))
            f.st.heap['BLD'].items = (gap('links', S('link', 'obj')),)
            f.pre = f.st.fork()
            yield W.run(p, f'bridging.{op}({"same" if trg == "E" else "other"} entity)', m, f,
                        lambda it, st, m=m: it.call_func(m, [O('BL'), C(0), O('PAIR')], {}, st, AT))
        f = W.world(p)
        f.st.heap['PAIR'] = Obj('list', items=(O('G'), S('rel', 'str')))
        f.st.heap['PAIR2'] = Obj('list', items=(O(trg), S('rel', 'str')))
        add_list(f.st, 'ARG', [O('PAIR'), O('PAIR2')])
        f.pre = f.st.fork()
        yield W.run(p, 'BridgingLinks(mention, links)', meth(W.BRIDGE_Q, '__init__'), f,
                    lambda it, st: it.instantiate(W.BRIDGE_Q, [O('K'), O('ARG')], {}, st, AT))
    # attributes of nodes
    for attr in ('feats', 'misc'):
        for have in (False, True):
            f = W.world(p)
            if have:
                q = 'udapi.core.feats.Feats' if attr == 'feats' else 'udapi.core.dualdict.DualDict'
                f.st.heap['DD'] = Obj('inst', cls=q, attrs={'_string': S('ddstr', 'str'), '_dict': O('DDD')})
                f.st.heap['DDD'] = Obj('dict', items=())
                f.st.heap['A'].attrs['_' + attr] = O('DD')
                f.pre = f.st.fork()
            for val in (C(5), O('ARG')):
                f2 = f
                add_list(f2.st, 'ARG', [C(1)])
                yield W.run(p, f'node.{attr} = {"a number" if val == C(5) else "a list"}', setter(NODE_Q, attr), f2,
                            lambda it, st, val=val, attr=attr: it.setattr(O('A'), attr, val, st, NODE))
    f = W.world(p)
    f.st.heap['EE'] = f.st.heap['A'].copy()
    f.st.heap['EE'].cls = 'udapi.core.node.EmptyNode'
    f.pre = f.st.fork()
    for val in (C(1), S('anord', '?'), S('anord', 'str')):
        yield W.run(p, 'empty_node.ord = value', setter('udapi.core.node.EmptyNode', 'ord'), f,
                    lambda it, st, val=val: it.setattr(O('EE'), 'ord', val, st, NODE))
    yield W.run(p, 'empty_node.parent = node', setter('udapi.core.node.EmptyNode', 'parent'), f,
                lambda it, st: it.setattr(O('EE'), 'parent', O('P'), st, NODE))
    f = W.world(p)
    f.st.heap['A'].attrs['_raw_deps'] = S('rawdeps', 'str')
    f.pre = f.st.fork()
    g = cls[NODE_Q].find_getter('deps')
    yield W.run(p, 'reading node.deps', g, f, lambda it, st: it.call_func(g, [O('A')], {}, st, AT))


def judge(ctx, r, attrs):
    ctx.count('operations interpreted')
    if r.func is None:
        ctx.undet(f'{r.label}: no such operation')
        return
    if r.results is None:
        ctx.undet(f'{r.label}: {r.why}')
        return
    for fl, st in r.results:
        if fl is None:
            continue
        ctx.count('rejecting paths')
        what = fl[1][1] if isinstance(fl[1], tuple) and len(fl[1]) > 1 else '?'
        ch = changed(st, r.forest.pre, attrs)
        if ch and st.tainted:
            ctx.undet(f'{r.label}: {st.tainted[0]}')
        elif ch:
            ctx.find('state-changed', r.func.module.path, r.func.lineno, r.func.qual,
                     f'{r.label} can fail ({what}) after {ch}')
        else:
            ctx.ok(f'{r.label} rejected without a change')


def run(ctx):
    ctx.rule('state-changed', 'whenever an edit ends in an exception, no object that existed before has changed')
    for r in operations(ctx.p, ('parent', 'steal', 'shift', 'create', 'remove')):
        judge(ctx, r, STRUCT)
    for r in edits(ctx.p):
        judge(ctx, r, None)
    ctx.floor('operations interpreted', 120)
    ctx.floor('rejecting paths', 60)
