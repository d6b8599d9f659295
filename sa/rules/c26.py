"""C26: no operation and no reader makes a node its own ancestor."""
from ..tree import ancestors_ok, assemblies, operations
from ..types import Types

EXPLANATION = ('Abstract interpretation of every public structural tree operation, with the operated node and its '
               'argument in every relation (same node, child, deeper descendant, ancestor, sibling, unrelated, other '
               'tree), and of every loop that links nodes directly, with unknown head indices: after each path, climbing '
               'from every tracked node must end in the root.')
TECHNIQUE = 'abstract interpretation with heap summarisation (reachability in the parent relation)'


def run(ctx):
    ctx.rule('cycle', 'climbing from any node through its parents ends in the technical root')
    ctx.rule('self-parent-accepted', 'attaching a node to itself or to its descendant is rejected')
    for r in operations(ctx.p, ('parent', 'create', 'remove', 'flatten', 'steal')):
        ctx.count('operations interpreted')
        if r.results is None:
            ctx.undet(f'{r.label}: {r.why}')
            continue
        for fl, st in r.results:
            if fl is not None:
                ctx.count('rejected')
                ctx.ok()
                continue
            if st.tainted:
                ctx.undet(f'{r.label}: {st.tainted[0]}')
                continue
            gone = {r.args[0]} if '.remove(' in r.label else set()
            bad = [b for b in (ancestors_ok(st, n, r.forest.roots) for n in r.forest.nodes if n not in gone) if b]
            if bad:
                ctx.find('cycle', r.func.module.path, r.func.lineno, r.func.qual, f'{r.label} is accepted and yields the {bad[0]}')
            else:
                ctx.ok(f'{r.label}: every node reaches a root')
    for f, loop, res, why, fo in assemblies(ctx.p, Types(ctx.p), 4 if ctx.tier == 'thorough' else 3):
        ctx.count('assembly loops')
        if res is None:
            ctx.undet(f'{f.qual}: {why}')
            continue
        for fl, st in res:
            if fl is not None:
                continue
            if st.tainted:
                ctx.undet(f'{f.qual}: {st.tainted[0]}')
                continue
            bad = [b for b in (ancestors_ok(st, n, fo.roots) for n in fo.nodes) if b]
            if bad:
                ctx.find('cycle', f.module.path, loop.lineno, f.qual, f'for some head values the loop builds the {bad[0]}')
            else:
                ctx.ok()
    ctx.floor('operations interpreted', 60)
    ctx.floor('rejected', 10)
    ctx.floor('assembly loops', 1)
