"""C06: queries, string views, writers and evaluation do not modify the document."""
import ast

from ..paths import Paths
from ..types import Types

EXPLANATION = ('In-place effects (attribute stores, setters, item stores, list and dictionary changes, setattr) of every '
               'function are computed as access paths relative to its parameters and closed over the call graph; the '
               'query interface of the data model and every entry point of writers, evaluators and reporting blocks must '
               'have no effect on an object of the document, other than through listed internal caches.')
TECHNIQUE = 'interprocedural side-effect analysis over access paths'

DOC = {'Node', 'Root', 'EmptyNode', 'MWT', 'Bundle', 'Document', 'DualDict', 'Feats', 'OtherDualDict', 'CorefEntity',
       'CorefMention', 'CorefMentionSubspan', 'BridgingLink', 'BridgingLinks'}
# Functions whose changes are internal caches: the synchronisation of the string and mapping views (decided by C01), the
# lazy creation of empty mappings, lazily sorted mention words, the lazy loading and the serialisation of coreference.
CACHE_CLASSES = {'DualDict', 'OtherDualDict', 'Feats'}
CACHE_METHODS = {'__str__', '__getitem__', '__iter__', '__len__', '__contains__', '_deserialize_if_empty', 'get_mapping',
                 '__call__', 'copy', '__init__'}
CACHE_GETTERS = {'feats', 'misc', 'deps', 'raw_deps', 'words', 'other', 'bridging', 'sent_id'}
CACHE_FUNCS = {'store_coref_to_misc', 'load_coref_from_misc', '_load_coref'}
# The machinery that calls blocks: what it does to the document is what the block does (decided per block).
DISPATCH = {'process_bundle', 'process_document', 'apply_on_document', 'run', '_should_process_tree', 'process_tree',
            'process_node', 'process_empty_node', 'before_process_document', 'after_process_document', 'process_start',
            'process_end'}
ENTRY = DISPATCH | {'__init__', 'process_coref_mention', 'process_coref_entity'}
QUERIES = {
    'Node': {'is_descendant_of', 'is_leaf', 'is_root', 'is_empty', 'is_nonprojective', 'is_nonprojective_gap', 'precedes',
             'get_attrs', 'compute_text', 'print_subtree', 'draw', 'to_string', 'enh_relations', '__lt__', '__str__',
             '__repr__', '__bool__', '__eq__', 'no_space_after_in_text', 'is_empty_node'},
    'Root': {'token_descendants', 'get_sentence', 'is_root', 'is_descendant_of', 'compute_text', 'draw', 'address'},
    'MWT': {'address', '__str__'},
    'EmptyNode': {'is_descendant_of', 'is_empty'},
    'Bundle': {'__iter__', '__str__', 'get_tree', 'has_tree', 'address', 'draw'},
    'Document': {'__iter__', '__getitem__', '__len__', '__str__', 'to_conllu_string', 'store_conllu', 'draw'},
    'CorefMention': {'__lt__', '__str__', '__repr__'},
    'CorefEntity': {'__lt__', '__str__', '__repr__', 'etype_or_none'},
    'CorefMentionSubspan': {'__lt__', '__str__'},
    'BridgingLink': {'__lt__', '__str__'},
    'BridgingLinks': {'__str__', '__getitem__', '__len__', '__call__'},
    'DualDict': {'__str__', '__getitem__', '__iter__', '__len__', '__contains__', 'copy'},
    'Feats': {'is_plural', 'is_singular', '__str__'},
}
OBSERVER_PACKAGES = ('udapi.block.write.', 'udapi.block.eval.')
OBSERVERS = {'udapi.block.util.see.See', 'udapi.block.util.wc.Wc', 'udapi.block.corefud.stats.Stats',
             'udapi.block.corefud.miscstats.MiscStats', 'udapi.block.corefud.miscstatstex.MiscStatsTex',
             'udapi.block.corefud.printmentions.PrintMentions', 'udapi.block.corefud.printentities.PrintEntities',
             'udapi.block.corefud.countgaps.CountGaps', 'udapi.block.demo.complexity.Complexity',
             'udapi.block.tutorial.adpositions.Adpositions', 'udapi.block.ud.printfixed.PrintFixed'}
# Writers of a format of their own which serialise the coreference into MISC themselves.
SERIALISERS = {'udapi.block.write.oldcorefud.OldCorefUD'}


class Effects(Paths):
    """All in-place changes, with the internal caches left out."""

    def cached(self, f):
        if f.cls is not None:
            if f.cls.name in CACHE_CLASSES and f.name in CACHE_METHODS:
                return True
            if f.prop == 'get' and f.name in CACHE_GETTERS:
                return True
            if f.name == '_load_coref':
                return True
            return f.cls.name in ('Block', 'BaseWriter') and f.name in DISPATCH
        return f.name in CACHE_FUNCS

    def node_effects(self, f, n):
        yield from super().node_effects(f, n)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For, ast.withitem)):
            if isinstance(n, (ast.Assign, ast.Delete)):
                targets = n.targets
            elif isinstance(n, ast.withitem):
                targets = [n.optional_vars] if n.optional_vars is not None else []
            else:
                targets = [n.target]
            for t in targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        if not any(c.find_setter(x.attr) for c in self.classes(f, x.value)):
                            yield x.value, 'write ' + self.label(f, x.value, x.attr)
                    elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        yield x.value, 'item'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
            yield n.args[0], 'write ?.' + (str(n.args[1].value) if len(n.args) > 1 and isinstance(n.args[1], ast.Constant)
                                           else '(computed)')

    def direct_effects(self, f):
        if self.cached(f):
            return set()
        out = super().direct_effects(f)
        if f.cls is not None and f.cls.name == 'CorefMention' and f.name == '__lt__':
            out -= {(q, k) for q, k in out if k == 'write CorefMention._words'}     # the default words of a mention: its head
        return out

    def call_effects(self, f, n):
        return set() if self.cached(f) else super().call_effects(f, n)

    def setter_calls(self, f):
        return [] if self.cached(f) else super().setter_calls(f)


def doc_attrs(p):
    out = set()
    for c in p.classes.values():
        if c.name in DOC and c.qual.startswith('udapi.core.'):
            out |= set(c.slots or ())
            out |= {a for a in c.setters}
    return out


def offending(path, kind, me, attrs, doc_param):
    """Does the effect change an object of the document?"""
    labels = [x for x in path[1:] if x != '*']
    attr = kind[6:] if kind.startswith('write ') else None
    if attr is not None:
        owner, name = attr.split('.', 1)
        if owner in DOC:
            return path[0] != me or len(path) > 1 or doc_param
        if owner == '?' and (path[0] != me or len(path) > 1):
            return name in attrs or name == '(computed)' or (len(path) > 1 and bool(labels) and
                                                             labels[-1].split('.')[0] in DOC)
        return False
    if not labels:
        return path[0] != me or doc_param
    return labels[-1].split('.')[0] in DOC


def chain(P, eff, f, effect):
    """Functions through which an effect arises (first path found)."""
    out, cur, seen = [f.qual], f, {f}
    q, k = effect
    for _ in range(8):
        nxt = None
        if any(kk == k for _, kk in P.direct_effects(cur)):
            break
        for n in P.call_nodes(cur):
            for g in P.targets(n):
                if g not in seen and any(kk == k for _, kk in eff[g]):
                    nxt = g
                    break
            if nxt:
                break
        if nxt is None:
            for g, _, _ in P.setter_calls(cur):
                if g not in seen and any(kk == k for _, kk in eff[g]):
                    nxt = g
                    break
        if nxt is None:
            break
        seen.add(nxt)
        out.append(nxt.qual)
        cur = nxt
    return out


def run(ctx):
    ctx.rule('query-modifies', 'a query or string view of the data model has no effect on the document')
    ctx.rule('observer-modifies', 'a writer, evaluator or reporting block has no effect on the document')
    p = ctx.p
    t = Types(p)
    P = Effects(p, t)
    P.call_nodes = lambda f: [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and P.targets(n)]
    eff = P.effects()
    attrs = doc_attrs(p)
    ctx.count('functions with effects', sum(1 for f in eff if eff[f]))
    for f in sorted(eff, key=lambda f: (f.module.name, f.lineno)):
        if f.cls is None or not f.params:
            continue
        mod, me = f.module, f.params[0]
        if mod.name.startswith('udapi.core.') and f.cls.name in DOC:
            query = f.prop == 'get' or any(f.name in QUERIES.get(b.name, ()) for b in f.cls.mro())
            if not query or P.cached(f):
                continue
            ctx.count('queries')
            bad = [(q, k) for q, k in eff[f] if not isinstance(q[0], tuple) and offending(q, k, me, attrs, True)]
            rule = 'query-modifies'
        elif observer(f.cls):
            ctx.count('observer methods')
            if f.name not in ENTRY and f.parent is not f.cls:
                continue
            bad = [(q, k) for q, k in eff[f] if not isinstance(q[0], tuple) and offending(q, k, me, attrs, False)]
            if f.name not in ENTRY:
                bad = [(q, k) for q, k in bad if len(q) > 1 or k.startswith('write')]
            if f.cls.qual in SERIALISERS:
                bad = [(q, k) for q, k in bad if not any(x in ('Node._misc', 'MWT._misc', 'Document.meta') for x in q[1:])]
            rule = 'observer-modifies'
        else:
            continue
        if not bad:
            ctx.ok(f'{f.qual}: {len(eff[f])} effects, none on the document')
            continue
        for q, k in sorted(bad, key=lambda e: (len(e[0]), str(e)))[:3]:
            what = {'grow': 'adds to', 'shrink': 'removes from or reorders', 'item': 'stores an item into'}.get(k, k)
            obj = '.'.join(x.split('.')[-1] if x != '*' else '[]' for x in q).replace('.[]', '[]')
            if k.startswith('write '):
                what = f'sets {k[6:].split(".")[-1]} of'
            ctx.find(rule, mod.path, f.lineno, f.qual, f'{what} {obj}, which belongs to the document',
                     trace=chain(P, eff, f, (q, k)))
    ctx.floor('queries', 60)
    ctx.floor('observer methods', 80)


def observer(c):
    return any(b.qual.startswith(OBSERVER_PACKAGES) or b.qual in OBSERVERS for b in c.mro()
               if b.qual.startswith('udapi.block.'))
