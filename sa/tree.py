"""Abstract trees: a few tracked nodes in fixed relations, everything else summarised by gaps.

The tracked nodes stand for arbitrary nodes of an arbitrary tree in the stated relation to each other, so what holds
for them after an operation holds for every node in that relation.
"""
import ast

from .absint import C, FALSE, NONE, O, Obj, S, State, T, gap, is_c, is_gap

NODE_Q, EMPTY_Q = 'udapi.core.node.Node', 'udapi.core.node.EmptyNode'
ROOT_Q, MWT_Q = 'udapi.core.root.Root', 'udapi.core.mwt.MWT'
NODE = ast.parse('x').body[0]
AT = ast.parse('f()').body[0].value


def add_list(st, oid, items, sorted=None):
    st.heap[oid] = Obj('list', items=tuple(items), sorted=sorted)
    return O(oid)


class Forest:
    """shape: {root name: {node: parent}}"""

    def __init__(self, p, shape, gaps=True, empties=True, loose=()):
        self.p = p
        self.shape = shape
        self.st = st = State()
        self.roots = list(shape)
        self.nodes, self.parent, self.root_of = [], {}, {}
        self.loose = list(loose)
        for r, nodes in shape.items():
            self.root_of[r] = r
            for n, par in nodes.items():
                self.nodes.append(n)
                self.parent[n] = par
                self.root_of[n] = r
        for n in self.nodes:
            self.inst(n, NODE_Q, self.root_of[n], self.parent[n])
        for n in self.loose:
            self.inst(n, NODE_Q, self.roots[0], None)
            add_list(st, 'L' + n, (), sorted=True)
            self.parent[n] = None
            self.root_of[n] = self.roots[0]
        for n in self.roots:
            self.inst(n, ROOT_Q, n, None)
            st.heap[n].attrs.update({
                '_sent_id': S(n + '.sid', '?'), '_zone': S(n + '.zone', 'str'), '_bundle': O('B' + n), 'comment': S('c', 'str'),
                'text': S(n + '.text', '?'), 'newpar': NONE, 'newdoc': NONE, 'json': O('J' + n)})
            st.heap['J' + n] = Obj('dict', items=())
            st.heap['B' + n] = Obj('inst', cls='udapi.core.bundle.Bundle', attrs={})
        for n in self.nodes + self.roots:
            kids = [O(k) for k in self.nodes if self.parent[k] == n]
            if gaps:
                w = 'w' + n
                self.inst(w, NODE_Q, self.root_of[n], n, weak=True)
                st.heap['L' + w] = Obj('list', items=(), weak=True)
                st.heap[w].attrs['_children'] = O('L' + w)
                kids = [gap('kids:' + n, O(w))] + kids
            add_list(st, 'L' + n, kids, sorted=True)
        for r in self.roots:
            ds = [O(n) for n in self.nodes if self.root_of[n] == r]
            if gaps:
                self.inst('wd' + r, NODE_Q, r, None, weak=True)
                st.heap['wd' + r].attrs['_parent'] = S('someparent', 'obj')
                st.heap['Lwd' + r] = Obj('list', items=(gap('dk:' + r, O('wd' + r)),), weak=True)
                ds = [gap('desc:' + r, O('wd' + r))] + ds
            add_list(st, 'DS' + r, ds, sorted=True)
            st.heap[r].attrs['_descendants'] = O('DS' + r)
            add_list(st, 'MW' + r, [gap('mwts:' + r, S('gen:mwt' + r, 'obj'))] if gaps else [])
            st.heap[r].attrs['_mwts'] = O('MW' + r)
            es = []
            if empties:
                self.inst('we' + r, EMPTY_Q, r, None, weak=True)
                es = [gap('empties:' + r, O('we' + r))]
            add_list(st, 'EN' + r, es, sorted=True)
            st.heap[r].attrs['empty_nodes'] = O('EN' + r)
        self.pre = st.fork()

    def inst(self, n, cls, root, parent, weak=False):
        st = self.st
        st.heap[n] = Obj('inst', cls=cls, weak=weak, attrs={
            '_ord': C(0) if cls == ROOT_Q else S(n + '.ord', 'int'), 'form': S(n + '.form', 'str'), 'lemma': S(n + '.lemma', 'str'),
            'upos': S(n + '.upos', 'str'), 'xpos': S(n + '.xpos', 'str'), 'deprel': S(n + '.deprel', 'str'),
            '_misc': NONE, '_feats': NONE, '_raw_deps': C('_'), '_deps': NONE,
            '_parent': O(parent) if parent else NONE, '_children': O('L' + n), '_root': O(root),
            '_mwt': NONE, '_mentions': O('ME' + n)})
        add_list(st, 'ME' + n, [])

    def start(self):
        return self.st.fork()


def items_of(st, v):
    if v is None or v[0] != 'o' or v[1] not in st.heap:
        return None
    o = st.heap[v[1]]
    return o.items if o.kind in ('list', 'set', 'tuplelist') else None


def kids(st, n):
    return items_of(st, st.heap[n].attrs.get('_children'))


def mirror_errors(st, nodes, roots):
    """Violations of the parent/children/descendants mirror among tracked nodes that belong to a tree."""
    out = []
    everyone = list(nodes) + list(roots)
    for n in nodes:
        par = st.heap[n].attrs.get('_parent')
        for q in everyone:
            ks = kids(st, q)
            if ks is None:
                out.append(('?', f'children of {q} unknown'))
                continue
            k = sum(1 for x in ks if x == O(n))
            want = 1 if par == O(q) else 0
            if k != want:
                out.append((f'{n}-{q}', f'{n} is listed {k} times among the children of {q} but its parent is '
                            f'{par[1] if par and par[0] == "o" else "not " + q if par == NONE else par}'))
    return out


SHAPE = {'R': {'P': 'R', 'A': 'P', 'S': 'P', 'X': 'A', 'Y': 'X', 'V': 'Y', 'N': 'R', 'M': 'N'}}
TWO = dict(SHAPE, Q={'Z': 'Q'})
STRUCT = ('_parent', '_children', '_root', '_descendants', '_mwts', 'empty_nodes', '_ord', '_mwt', '_mentions', '_bundle')


class TreeHook:
    """Keeps track of sorted lists: appending a node that is known to follow the last one keeps the order."""

    def is_last(self, it, o, x, last, st):
        if x[0] != 'o' or last[0] != 'o' or x[1] not in st.heap or last[1] not in st.heap:
            return False
        a, b = (st.heap[v[1]].attrs.get('_ord') for v in (last, x))
        if a is None or b is None:
            return False
        from .absint import add, lin, mentions
        d = add(b, a, -1)
        if d is not None and is_c(d):
            return d[2] > 0
        if it.implied(T('lt', a, b), st) is True or it.implied(T('lt', b, a), st) is False:
            return True
        if not (a[0] == 's' and a[1].endswith('.ord')):
            return False
        # counted from the number of nodes of the tree: beyond every older ord
        lb = lin(b)
        if lb is None or lb[0] < 1:
            return False
        root = st.heap[x[1]].attrs.get('_root')
        ds = items_of(st, st.heap[root[1]].attrs.get('_descendants')) if root and root[0] == 'o' else None
        if ds is None or set(lb[1].values()) - {1}:
            return False
        counted = [k for k in lb[1] if k[0] == 't' and k[1] in ('len', 'gaplen')]
        if len(counted) != len(lb[1]):
            return False
        return bool(counted) or lb[0] >= len(ds)


    def order_term(self, it, x, last, st):
        if x[0] != 'o' or last[0] != 'o' or x[1] not in st.heap or last[1] not in st.heap or \
                self.is_last(it, None, x, last, st):
            return None
        a, b = (st.heap[v[1]].attrs.get('_ord') for v in (last, x))
        if a is None or b is None or a[0] != 's' or b[0] != 's':
            return None
        t = T('lt', b, a)
        return t if it.implied(t, st) is None and it.implied(T('lt', a, b), st) is None else None


class Run:
    def __init__(self, label, func, forest, results, it, args):
        self.label, self.func, self.forest, self.it, self.args = label, func, forest, it, args
        self.results = results          # list of (None | ('raise', exc, ...), State), or None when undetermined
        self.why = None


def operations(p, which=('parent', 'create', 'remove', 'flatten', 'steal', 'shift'), forest=None, interp=None, every=False):
    """Yields a Run for every public structural operation in every relation of its arguments."""
    from .absint import Interp, Undetermined
    nc, rc = p.classes[NODE_Q], p.classes[ROOT_Q]

    def run(label, func, forest, go, args=()):
        it = (interp or Interp)(p, hook=TreeHook(), budget=150000)
        r = Run(label, func, forest, None, it, args)
        try:
            res = go(it, forest.start())
            r.results = [(('raise',) + v[1:] if v is not None and v[0] == '!raise' else
                          v if v is not None and v[0] == 'raise' else None, s) for v, s in res]
        except Undetermined as e:
            r.why = str(e)
        except RecursionError:
            r.why = 'recursion'
        return r

    if 'parent' in which:
        setter = nc.find_setter('parent')
        for who in ('A', 'V', 'P', 'F'):
            for tgt in ('R', 'P', 'A', 'S', 'X', 'Y', 'V', 'N', 'M', 'Z', 'Q', 'wP', 'weR', None):
                f = (forest or Forest)(p, TWO, loose=('F',))
                v = O(tgt) if tgt else NONE
                yield run(f'{who}.parent = {tgt}', setter, f,
                          lambda it, st, who=who, v=v: it.setattr(O(who), 'parent', v, st, NODE), (who, tgt))
        f = (forest or Forest)(p, TWO)
        yield run('R.parent = A', rc.find_setter('parent'), f, lambda it, st: it.setattr(O('R'), 'parent', O('A'), st, NODE),
                  ('R', 'A'))
    if 'create' in which:
        for who in ('R', 'P', 'A', 'V'):
            f = (forest or Forest)(p, SHAPE)
            m = (rc if who == 'R' else nc).find_method('create_child')
            yield run(f'{who}.create_child', m, f, lambda it, st, who=who, m=m: it.call_func(m, [O(who)], {}, st, AT), (who,))
    if 'remove' in which:
        m = nc.find_method('remove')
        for who in SHAPE['R'] if every else ('A', 'V', 'P', 'S', 'N'):
            for opt in (None, 'rehang', 'warn', 'rehang_warn'):
                for gaps in (False,) if every else (True, False):
                    if gaps and who in ('V', 'S') and opt:
                        continue
                    f = (forest or Forest)(p, SHAPE, empties=False, gaps=gaps)
                    yield run(f'{who}.remove(children={opt})', m, f,
                              lambda it, st, who=who, opt=opt: it.call_func(m, [O(who), C(opt)], {}, st, AT), (who, opt))
    if 'flatten' in which:
        m = rc.find_method('flatten')
        f = (forest or Forest)(p, SHAPE)
        yield run('R.flatten()', m, f, lambda it, st: it.call_func(m, [O('R')], {}, st, AT), ('R',))
    if 'steal' in which:
        m = rc.find_method('steal_nodes')
        subsets = [[n] for n in SHAPE['R']] + [[a, b] for a in SHAPE['R'] for b in SHAPE['R'] if a != b] + \
            [[n for n in SHAPE['R'] if n != a] for a in SHAPE['R']]
        for names in (subsets if every else []) + ([['A'], ['V'], ['A', 'X'], ['X'], ['P', 'A', 'S'], ['Y', 'A'], ['S', 'N'], ['P', 'A', 'S', 'X', 'Y', 'V', 'N', 'M']]):
            for gaps in (False,) if every else (True, False):
                if gaps and len(names) > 3:
                    continue
                f = (forest or Forest)(p, TWO, gaps=gaps, empties=False)
                add_list(f.st, 'ARG', [O(n) for n in names])
                yield run(f'Q.steal_nodes({names})', m, f,
                          lambda it, st: it.call_func(m, [O('Q'), O('ARG')], {}, st, AT), ('Q', tuple(names)))
        f = (forest or Forest)(p, TWO, gaps=False, empties=False)
        add_list(f.st, 'ARG', [O('A'), O('Z')])
        yield run('Q.steal_nodes(nodes of two trees)', m, f, lambda it, st: it.call_func(m, [O('Q'), O('ARG')], {}, st, AT),
                  ('Q', ('A', 'Z')))
    if 'shift' in which:
        for name in ('shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'):
            m = nc.find_method(name)
            if m is None:
                continue
            for who, ref in ([(a, b) for a in SHAPE['R'] for b in list(SHAPE['R']) + ['R']] if every else
                             (('A', 'X'), ('A', 'V'), ('A', 'Y'), ('P', 'V'), ('A', 'R'), ('V', 'R'))):
                if ref == 'R' and 'after' in name:
                    continue
                for wc, skip in ((False, False), (False, True), (True, False)):
                    if wc and ref != 'R' and not every:
                        continue
                    f = (forest or Forest)(p, SHAPE, empties=False)
                    yield run(f'{who}.{name}({ref}, without_children={wc}, skip_if_descendant={skip})', m, f,
                              lambda it, st, m=m, who=who, ref=ref, wc=wc, skip=skip: it.call_func(
                                  m, [O(who), O(ref), C(wc), C(skip)], {}, st, AT), (who, ref, wc, skip))
    if 'empty' in which:
        for who, after in (('A', True), ('A', False), ('P', False), ('R', True), ('M', True), ('N', False)):
            f = (forest or Forest)(p, SHAPE)
            m = (rc if who == 'R' else nc).find_method('create_empty_child')
            yield run(f'{who}.create_empty_child(after={after})', m, f, lambda it, st, who=who, m=m, after=after: it.call_func(
                m, [O(who), C('x')], {'after': C(after)}, st, AT), (who, after))
        m = p.classes[EMPTY_Q].find_method('remove')
        for e in getattr(forest, 'empties', ()):
            f = forest(p, SHAPE)
            yield run(f'{e}.remove()', m, f, lambda it, st, e=e, m=m: it.call_func(m, [O(e)], {}, st, AT), (e,))


def ancestors_ok(st, n, roots):
    """None, or why climbing from n does not end in a root."""
    seen, cur = [], n
    while cur not in roots:
        if cur in seen:
            return 'cycle ' + ' -> '.join(seen + [cur])
        seen.append(cur)
        if cur not in st.heap:
            return None
        par = st.heap[cur].attrs.get('_parent')
        if par is None or par[0] != 'o':
            return None
        if st.heap[par[1]].weak:
            return None
        cur = par[1]
    return None


def in_tree(st, n, roots):
    """The root n is attached to through parents that list it, or None."""
    seen, cur = set(), n
    while cur not in roots:
        if cur in seen:
            return None
        seen.add(cur)
        par = st.heap[cur].attrs.get('_parent')
        if par is None or par[0] != 'o' or par[1] not in st.heap:
            return None
        if st.heap[par[1]].weak:
            r = st.heap[par[1]].attrs.get('_root')
            return r[1] if r and r[0] == 'o' else None
        ks = kids(st, par[1])
        if ks is None or O(cur) not in ks:
            return None
        cur = par[1]
    return cur


def direct_writers(p, attrs=('_parent', '_children')):
    """Functions outside the core classes that assign these links of some object directly."""
    from .project import own_nodes
    out = {}
    for f in p.functions.values():
        if f.cls is not None and f.cls.qual in (NODE_Q, EMPTY_Q, ROOT_Q):
            continue
        for n in own_nodes(f.node):
            t = n.targets[0] if isinstance(n, ast.Assign) else None
            if isinstance(t, ast.Attribute) and t.attr in attrs:
                out.setdefault(f, []).append(n)
    return out


def assemblies(p, types, size=3):
    """Loops outside the core that link nodes directly: (function, loop, results) of interpreting the loop over `size`
    new nodes whose head indices are unknown."""
    from .absint import Interp, Undetermined
    from .project import own_nodes
    writers = {f: w for f, w in direct_writers(p, ('_parent',)).items()}
    jobs = []
    for f in p.functions.values():
        if f.cls is not None and f.cls.qual in (NODE_Q, EMPTY_Q, ROOT_Q):
            continue
        direct = writers.get(f, [])
        hits = list(direct)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for key in types.calls.get(n, ()):
                    g = p.functions.get(key)
                    if g in writers and g is not f and not any(
                            isinstance(x, ast.For) and any(w in set(ast.walk(x)) for w in writers[g])
                            for x in own_nodes(g.node)):
                        hits.append(n)
        if not hits:
            continue
        loops = [x for x in own_nodes(f.node) if isinstance(x, ast.For) and any(h in set(ast.walk(x)) for h in hits)]
        outer = [x for x in loops if not any(x is not y and x in set(ast.walk(y)) for y in loops)]
        for x in outer:
            jobs.append((f, x))
        if not outer:
            jobs.append((f, None))
    for f, loop in jobs:
        if loop is None:
            yield f, None, None, 'links written outside a loop over the nodes', None
            continue
        names = [f'n{i}' for i in range(1, size + 1)]
        fo = Forest(p, {'R': {n: 'R' for n in names}}, gaps=False, empties=False)
        st = fo.start()
        st.heap['LR'].items = ()
        st.heap['LR'] = Obj('list', items=(), sorted=True)
        for i, n in enumerate(names, 1):
            st.heap[n].attrs.update({'_parent': NONE, '_ord': C(i)})
        add_list(st, 'NL', [O('R')] + [O(n) for n in names])
        add_list(st, 'HL', [C(0)] + [S('head' + n, 'int') for n in names])
        bound = {n.id for n in ast.walk(loop) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        env = {}
        for n in ast.walk(loop):
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)) or n.id in bound or n.id in env:
                continue
            vals = types.of(f.module, f, n)
            if n.id not in types_locals(f):
                continue
            if n.id == 'self':
                st.heap['SELF'] = Obj('inst', cls=f.cls.qual if f.cls else None, attrs={})
                env[n.id] = O('SELF')
            elif any(v[0] in ('I', 'i') and v[1] == ROOT_Q for v in vals):
                env[n.id] = O('R')
            elif any(v[0] == 'o' and v[1] == 'list' for v in vals):
                elems = set().union(*[types.content_of(v) for v in vals if v[0] == 'o' and v[1] == 'list'])
                env[n.id] = O('NL') if any(v[0] in ('I', 'i') and v[1] in (NODE_Q, ROOT_Q) for v in elems) else O('HL')
            else:
                env[n.id] = S('free:' + n.id, '?')
        it = Interp(p, hook=TreeHook(), budget=400000)
        it.fork_index = True
        fr = 'FRAME'
        st.heap[fr] = Obj('frame', attrs=env, tag=(f.module, None, f.node))
        try:
            yield f, loop, it.block([loop], fr, st), None, fo
        except Undetermined as e:
            yield f, loop, None, str(e), fo


def types_locals(f):
    from .project import local_bindings
    return local_bindings(f.node)
