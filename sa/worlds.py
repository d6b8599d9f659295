"""Abstract documents: a forest inside bundles and a document, with one tracked entity, its mentions and their words."""
import ast

from .absint import C, FALSE, Interp, NONE, O, Obj, S, T, TOP, TRUE, Undetermined, gap
from .tree import AT, EMPTY_Q, NODE, NODE_Q, ROOT_Q, TWO, Forest, Run, TreeHook, add_list

DOC_Q, BUNDLE_Q = 'udapi.core.document.Document', 'udapi.core.bundle.Bundle'
MENTION_Q, ENTITY_Q = 'udapi.core.coref.CorefMention', 'udapi.core.coref.CorefEntity'
BRIDGE_Q = 'udapi.core.coref.BridgingLinks'
MWT_Q = 'udapi.core.mwt.MWT'


class DocHook(TreeHook):
    """Adds models of the few library functions the coreference and bundle classes call."""

    def ext(self, it, name, args, kwargs, st, node):
        if name.startswith('bisect.insort') and len(args) >= 2 and args[0][0] == 'o':
            v = args[0]
            o = st.heap[v[1]]
            it.mutate(v, 'insert', [TOP, args[1]], st, node)
            if not o.weak:
                w = st.w(v[1])
                w.items = o.items + (it.as_item(args[1], st),)
            return [(NONE, st)]
        return None


def world(p, words=('A', 'X'), head='A'):
    f = Forest(p, TWO, loose=('F',), empties=False)
    st = f.st
    st.heap['D'] = Obj('inst', cls=DOC_Q, attrs={
        'bundles': O('BS'), '_highest_bundle_id': S('hb', 'int'), 'meta': O('META'), 'json': O('DJ'), '_eid_to_entity': O('E2E')})
    for n in ('META', 'DJ'):
        st.heap[n] = Obj('dict', items=())
    st.heap['BR'].attrs.update({'trees': O('TS'), 'number': S('bn', 'int'), '_bundle_id': S('bid', 'str'), '_document': O('D')})
    st.heap['wT'] = Obj('inst', cls=ROOT_Q, weak=True, attrs={
        '_sent_id': S('wT.sid', '?'), '_zone': S('wT.zone', 'str'), '_bundle': O('BR'), 'json': O('JR')})
    add_list(st, 'TS', [O('R'), gap('trees', O('wT'))])
    st.heap['wB'] = Obj('inst', cls=BUNDLE_Q, weak=True, attrs={
        'trees': S('otrees', 'obj'), 'number': S('obn', 'int'), '_bundle_id': S('obid', 'str'), '_document': O('D')})
    add_list(st, 'BS', [O('BR'), gap('bundles', O('wB'))])
    st.heap['Q'].attrs['_bundle'] = NONE
    # entity E with mention M (tracked) and others, entity G with others
    for e in ('E', 'G'):
        st.heap[e] = Obj('inst', cls=ENTITY_Q, attrs={
            '_eid': S(e + '.eid', 'str'), '_mentions': O(e + 'MS'), 'etype': S(e + '.etype', 'str'), 'split_ante': O(e + 'SA')})
        add_list(st, e + 'SA', [])
        st.heap['w' + e] = Obj('inst', cls=MENTION_Q, weak=True, attrs={
            '_head': O('N'), '_entity': O(e), '_bridging': NONE, '_other': NONE, '_words': O('wW' + e)})
        st.heap['wW' + e] = Obj('list', items=(O('N'),), weak=True)
    st.heap['K'] = Obj('inst', cls=MENTION_Q, attrs={
        '_head': O(head), '_entity': O('E'), '_bridging': O('BL'), '_other': NONE, '_words': O('MW')})
    st.heap['BL'] = Obj('inst', cls=BRIDGE_Q, attrs={'src_mention': O('K'), '_data': O('BLD'), 'strict': TRUE})
    add_list(st, 'BLD', [])
    add_list(st, 'MW', [O(w) for w in words])
    add_list(st, 'EMS', [gap('Ementions', O('wE')), O('K')], sorted=True)
    add_list(st, 'GMS', [gap('Gmentions', O('wG'))], sorted=True)
    for n in f.nodes:
        st.heap['wm' + n] = Obj('inst', cls=MENTION_Q, weak=True, attrs={
            '_head': O(n), '_entity': O('G'), '_bridging': NONE, '_other': NONE, '_words': O('wW' + 'G')})
        ms = [gap('mentions:' + n, O('wm' + n))]
        if n in words:
            ms.append(O('K'))
        add_list(st, 'ME' + n, ms, sorted=True)
    st.heap['E2E'] = Obj('dict', items=())
    f.pre = st.fork()
    return f


def span_model(it, args, kwargs, st, node):
    """span_to_nodes: a list of some nodes of the tree, or ValueError."""
    s = st.fork()
    key = f'span{len(s.heap)}'
    v = s.new('SPAN', Obj('list', items=(gap(key, O('wdR')),), fresh=True, sorted=True))
    out = [(v, s), (it.exc('ValueError', node), st)]
    for words in ((), ('A',), ('A', 'Y'), ('X', 'Y'), ('A', 'X', 'V')):
        s = st.fork()
        out.append((s.new('SPAN', Obj('list', items=tuple(O(w) for w in words), fresh=True, sorted=True)), s))
    return out


def interp(p, budget=150000, strict=True):
    it = Interp(p, hook=DocHook(), budget=budget)
    for f in p.functions.values():
        if f.qual == 'udapi.core.coref.span_to_nodes':
            it.models[f.key] = span_model
    return it


def run(p, label, func, forest, go, args=()):
    it = interp(p)
    r = Run(label, func, forest, None, it, args)
    try:
        res = go(it, forest.start())
        r.results = [(('raise',) + v[1:] if v is not None and v[0] == '!raise' else
                      v if v is not None and v[0] == 'raise' else None, s) for v, s in res]
    except Undetermined as e:
        r.why = str(e)
    except RecursionError:
        r.why = 'recursion'
    return r
