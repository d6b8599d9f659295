"""C05: deleting or moving elements while they are being visited never makes the library skip one."""
import ast

from ..flow import Flow
from ..paths import Paths
from ..project import own_nodes
from ..types import Types

EXPLANATION = ('For every loop over a list, set or dictionary that is stored in an object (found by access-path analysis '
               'through attributes, properties, iterators and generators), the bodies, the library functions they call '
               '(in-place effect summaries, closed over the call graph) and the overridable process_* hooks and user '
               'code they dispatch to are searched for removals from that very collection that can be followed by '
               'another round of the loop (path dataflow inside the loop body). Queries documented to return lists of '
               'nodes or mentions are checked to build them afresh.')
TECHNIQUE = 'access-path alias analysis with in-place effect summaries over the call graph'

SNAPSHOTS = [('udapi.core.node.Node', 'children'), ('udapi.core.node.Node', 'siblings'),
             ('udapi.core.node.Node', 'descendants'), ('udapi.core.root.Root', 'descendants'),
             ('udapi.core.node.Node', 'descendants_and_empty'), ('udapi.core.root.Root', 'descendants_and_empty'),
             ('udapi.core.root.Root', 'token_descendants'), ('udapi.core.node.Node', 'coref_entities'),
             ('udapi.core.document.Document', 'coref_entities'), ('udapi.core.document.Document', 'coref_mentions')]


class Body(Flow):
    """State (appended, hit): elements appended in this round and not yet taken back, first harmful removal."""

    def __init__(self, hits, grows):
        self.hits, self.grows = hits, grows

    def may_raise(self, node):
        return False

    def event(self, node, state):
        appended, hit = state
        if node in self.hits:
            if appended and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                    node.func.attr == 'pop' and not node.args:
                return (appended - 1, hit)
            return (appended, hit or node)
        if node in self.grows:
            return (min(appended + 1, 3), hit)
        return state


def dispatched(f, n, loop):
    """Expressions of the elements handed to overridable hooks or to the user's own code by this call."""
    fn = n.func
    if isinstance(fn, ast.Attribute) and fn.attr.startswith('process_') and isinstance(fn.value, ast.Name) and \
            f.cls is not None and f.params and fn.value.id == f.params[0]:
        return list(n.args)
    if isinstance(fn, ast.Name) and fn.id in ('exec', 'eval'):
        return [x for x in ast.walk(loop.target) if isinstance(x, ast.Name)]
    return []


def removal_effects(paths, f, arg):
    out = set()
    for c in paths.classes(f, arg):
        for name in ('remove', 'shift_before_node', 'shift_after_node'):
            m = c.find_method(name)
            if m is not None:
                out |= paths.subst(f, m, {m.params[0]: arg})
    return out


def body_effects(P, f, loop, n):
    effs = set()
    if isinstance(n, ast.Call):
        effs |= P.call_effects(f, n)
        for a in dispatched(f, n, loop):
            effs |= removal_effects(P, f, a)
    for g, base, val in P.setter_calls_of(f, n):
        effs |= P.subst(f, g, {g.params[0]: base, g.params[1]: val} if len(g.params) > 1 else {g.params[0]: base})
    for e, kind in P.node_effects(f, n):
        effs |= {(q, kind) for q in P.of(f, e)}
    return effs


def rebound(loop, root):
    """Is the local variable an access path starts from assigned inside the loop body?"""
    name = root[1] if isinstance(root, tuple) else root
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del))
               for st in loop.body for x in ast.walk(st))


def run(ctx):
    ctx.rule('live-loop', 'no loop over a stored collection lets its body remove an element of that collection and '
                          'then goes on to the next element')
    ctx.rule('live-query', 'queries for nodes and mentions return a new list, not the stored one')
    p = ctx.p
    P = Paths(p, Types(p))
    P.effects()
    for f in p.functions.values():
        for loop in own_nodes(f.node):
            if not isinstance(loop, ast.For):
                continue
            ctx.count('loops')
            its = P.iterated(f, loop.iter)
            its = {q for q in its if not rebound(loop, q[0])}
            if not its:
                continue
            ctx.count('loops over stored collections')
            hits, grows = {}, set()
            for st in loop.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Call) and dispatched(f, n, loop):
                        ctx.count('hook dispatches')
                    if not isinstance(n, (ast.Call, ast.Assign, ast.AugAssign, ast.Delete)):
                        continue
                    for q, kind in body_effects(P, f, loop, n):
                        if q in its and kind == 'shrink':
                            hits[n] = q
                        elif q in its:
                            grows.add(n)
            if hits:
                out = Body(set(hits), grows - set(hits)).block(loop.body, {(0, None)})
                bad = [s[1] for s in out.next | out.cont if s[1] is not None]
                if bad:
                    n = bad[0]
                    q = hits[n]
                    ctx.find('live-loop', f.module.path, loop.lineno, f'{f.qual}: {ast.unparse(loop.iter)}',
                             f'the loop walks through {".".join(map(str, q[1:]))} itself while `{ast.unparse(n)[:70]}` '
                             f'(line {n.lineno}) can remove elements from it: the following element is skipped')
                    continue
            ctx.ok(f'{f.qual}: {ast.unparse(loop.iter)[:60]}' if hits else None)
    for qual, name in SNAPSHOTS:
        c = p.classes.get(qual)
        g = c.find_getter(name) or c.find_method(name) if c is not None else None
        if g is None:
            ctx.undet(f'{qual}.{name} not found')
            continue
        ctx.count('queries')
        stored = [q for q in P.returned(g) if len(q) > 1 and q[-1] != '*']
        if stored:
            ctx.find('live-query', g.module.path, g.lineno, g.qual,
                     f'returns the stored list {stored[0][-1]}: a caller looping over it skips elements when it '
                     f'removes or moves the visited one')
        else:
            ctx.ok(g.qual)
    ctx.floor('loops', 300)
    ctx.floor('loops over stored collections', 40)
    ctx.floor('hook dispatches', 3)
    ctx.floor('queries', 8)
