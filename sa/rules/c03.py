"""C03: parents and children mirror each other after every structural operation."""
import ast

from ..absint import O, is_c, is_gap
from .c25 import moves
from ..project import own_nodes
from ..types import Types
from ..tree import EMPTY_Q, NODE_Q, ROOT_Q, assemblies, in_tree, items_of, kids, operations

EXPLANATION = ('Abstract interpretation of every public structural tree operation on abstract trees (individually '
               'tracked nodes in every relation to the operated node; all other nodes summarised); after each path '
               'parent links, children lists and the list of all nodes of the tree are compared. Code outside the core '
               'that writes these links directly is checked by a paired-update typestate.')
TECHNIQUE = 'abstract interpretation with heap summarisation (shape analysis); paired-update typestate for direct writers'


CORE = (NODE_Q, EMPTY_Q, ROOT_Q)


def check_run(ctx, r):
    f = r.forest
    if r.results is None:
        ctx.undet(f'{r.label}: {r.why}')
        return
    for fl, st in r.results:
        if fl is not None:
            continue            # rejected operations are another property
        if st.tainted:
            ctx.undet(f'{r.label}: {st.tainted[0]}')
            continue
        removed = set()
        if '.remove(' in r.label:
            removed.add(r.args[0])
        bad = None
        fresh = [o for o in st.heap if o not in f.pre.heap and st.heap[o].kind == 'inst' and not st.heap[o].weak
                 and st.heap[o].cls in ('udapi.core.node.Node',)]
        nodes = list(f.nodes) + fresh
        everyone = nodes + f.roots
        for n in nodes:
            ctx.count('node obligations')
            par = st.heap[n].attrs.get('_parent')
            for q in everyone:
                ks = kids(st, q)
                if ks is None:
                    ctx.undet(f'{r.label}: children of {q} unknown')
                    continue
                k = sum(1 for x in ks if x == O(n))
                want = 1 if par == O(q) and n not in removed else 0
                if n in removed and q in removed:
                    continue
                if k != want:
                    bad = ('mirror', f'after {r.label} node {n} is listed {k} times among the children of {q}, its '
                                     f'parent is {par[1] if par and par[0] == "o" else None}')
            if bad:
                break
        for root in f.roots:
            ds = items_of(st, st.heap[root].attrs.get('_descendants'))
            if ds is None:
                ctx.undet(f'{r.label}: nodes of {root} unknown')
                continue
            for n in nodes:
                where = in_tree(st, n, f.roots)
                k = sum(1 for x in ds if x == O(n))
                want = 1 if where == root else 0
                if k != want and not bad:
                    bad = ('all-nodes', f'after {r.label} node {n} occurs {k} times in the list of all nodes of a tree '
                                        f'it {"belongs" if want else "does not belong"} to')
                if where == root and st.heap[n].attrs.get('_root') != O(root) and not bad:
                    bad = ('own-root', f'after {r.label} node {n} does not know the tree it belongs to')
        if not bad:
            for q in everyone:
                if q in removed or in_tree(st, q, f.roots) is None:
                    continue
                lst = st.heap[q].attrs.get('_children')
                o = st.heap[lst[1]]
                if not o.sorted and (len(o.items) > 1 or any(is_gap(i) for i in o.items)):
                    bad = ('word-order', f'after {r.label} the children of {q} need not be in word order')
                    break
        if bad:
            ctx.find(bad[0], r.func.module.path, r.func.lineno, f'{r.func.qual}', bad[1])
        else:
            ctx.ok(f'{r.label}: links of {len(nodes)} nodes agree')


MUT = ('append', 'remove', 'extend', 'insert', 'pop', 'clear')


def check_direct(ctx):
    """Code outside the core that touches the links without going through the public operations."""
    p = ctx.p
    for f in p.functions.values():
        if f.cls is not None and f.cls.qual in CORE:
            continue
        par, ch = [], []
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and n.attr == '_parent' and isinstance(n.ctx, ast.Store):
                par.append(n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and \
                    isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '_children':
                ch.append(n)
            if isinstance(n, ast.Attribute) and n.attr == '_children' and isinstance(n.ctx, ast.Store):
                ch.append(n)
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute) and n.iter.attr == '_children':
                ch.append(n)
        if not par and not [c for c in ch if isinstance(c, ast.Call)]:
            continue
        ctx.count('functions writing links directly')
        if par and not ch:
            ctx.find('unpaired', f.module.path, par[0].lineno, f'{f.qual}',
                     f'{ast.unparse(par[0])} is assigned but no children list is updated in this function')
        elif ch and not par:
            calls = [c for c in ch if isinstance(c, ast.Call)]
            ctx.find('unpaired', f.module.path, calls[0].lineno, f'{f.qual}',
                     f'{ast.unparse(calls[0])[:60]} changes a children list but no parent is updated in this function')
        else:
            ctx.ok(f'{f.qual} updates both directions')


def check_moves(ctx):
    """After every move in the word order all lists of children are in word order and mirror the parents."""
    for label, m, shape, args, res, why in moves(ctx.p):
        if res is None:
            ctx.undet(f'{label}: {why}')
            continue
        ctx.count('moves interpreted')
        for fl, st in res:
            bad = None
            for q in list(shape) + ['R']:
                ks = kids(st, q)
                if st.tainted or ks is None or any(is_gap(x) or x[0] != 'o' for x in ks):
                    bad = '?'
                    break
                nums = [st.heap[x[1]].attrs.get('_ord') for x in ks]
                if {x[1] for x in ks} != {k for k, h in shape.items() if h == q} or len(set(ks)) != len(ks):
                    bad = f'the children of {q} changed'
                elif not all(n is not None and is_c(n) for n in nums):
                    bad = '?'
                elif [n[2] for n in nums] != sorted(n[2] for n in nums):
                    bad = f'the children of {q} are not in word order'
            if bad == '?':
                ctx.undet(label)
            elif bad:
                ctx.find('re-sort', m.module.path, m.lineno, m.qual, f'after {label} {bad}')
            else:
                ctx.ok()


def check_assembly(ctx, f, loop, res, why, fo):
    ctx.count('assembly loops')
    if res is None:
        ctx.undet(f'{f.qual}: {why}')
        return
    for fl, st in res:
        if fl is not None:
            continue
        if st.tainted:
            ctx.undet(f'{f.qual}: {st.tainted[0]}')
            continue
        ctx.count('assembled trees')
        bad = None
        for n in fo.nodes:
            par = st.heap[n].attrs.get('_parent')
            for q in fo.nodes + fo.roots:
                k = sum(1 for x in kids(st, q) or () if x == O(n))
                if k != (1 if par == O(q) else 0):
                    bad = f'a node is listed {k} times among the children of {"its parent" if par == O(q) else "a node that is not its parent"}'
        for q in fo.nodes + fo.roots:
            if not bad:
                o = st.heap[st.heap[q].attrs['_children'][1]]
                if not o.sorted and len(o.items) > 1:
                    bad = 'children are not in word order'
        if bad:
            ctx.find('mirror', f.module.path, loop.lineno, f'{f.qual}', f'after assembling a tree {bad}')
        else:
            ctx.ok()


def run(ctx):
    ctx.rule('mirror', 'a node is listed exactly once among the children of its parent, and of no other node')
    ctx.rule('all-nodes', 'the list of all nodes of a tree contains exactly the nodes attached to its root, once each')
    ctx.rule('own-root', 'every attached node refers to the root of its tree')
    ctx.rule('unpaired', 'code that writes one direction of the link directly writes the other one too')
    ctx.rule('word-order', 'children lists are kept in word order')
    ctx.rule('re-sort', 'after a move in the word order every list of children is in word order again')
    check_moves(ctx)
    for r in operations(ctx.p, ('parent', 'create', 'remove', 'flatten', 'steal')):
        ctx.count('operations interpreted')
        check_run(ctx, r)
    check_direct(ctx)
    for f, loop, res, why, fo in assemblies(ctx.p, Types(ctx.p), 4 if ctx.tier == 'thorough' else 3):
        check_assembly(ctx, f, loop, res, why, fo)
    ctx.floor('operations interpreted', 60)
    ctx.floor('moves interpreted', 600)
    ctx.floor('node obligations', 500)
