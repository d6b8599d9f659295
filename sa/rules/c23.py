"""C23: objects, calls and documents do not influence each other through shared mutable state."""
import ast

from ..paths import Paths
from ..project import own_nodes
from ..types import Types

EXPLANATION = ('Every mutable default argument, class-level value and module-level value is followed by access paths into '
               'all in-place changes (directly, through library functions called with it, through aliases) and into '
               'attributes of objects that are changed in place later; every rebinding of module and class variables '
               'by functions is examined; memoised functions must not return mutable objects.')
TECHNIQUE = 'escape and in-place-effect analysis of shared mutable values over the call graph'

MUTABLE_CALLS = {'list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'Counter', 'deque'}
READ_ONLY = (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Compare, ast.JoinedStr, ast.Lambda, ast.Tuple)


def mutable(p, m, e):
    """Is the initial value an object that can be changed in place?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
        if name in MUTABLE_CALLS:
            return True
        r = p.resolve_expr(m, fn)
        return hasattr(r, 'find_method')
    return False


def plain(e):
    """Does the table hold nothing but constants (no objects with attributes)?"""
    return all(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.expr_context, ast.UnaryOp, ast.unaryop))
               for x in ast.walk(e))


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    return list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
        [(k, v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]


def stores(f):
    """(target attribute, value) of attribute assignments."""
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Attribute):
                    yield t, n.value
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)):
                    for x, v in zip(t.elts, n.value.elts):
                        if isinstance(x, ast.Attribute):
                            yield x, v


def run(ctx):
    ctx.rule('default-shared', 'a mutable default value is neither changed in place nor kept or returned by the function')
    ctx.rule('shared-changed', 'no function changes a class-level or module-level object in place')
    ctx.rule('shared-escape', 'a class-level or module-level mutable object is not stored in objects that change it')
    ctx.rule('rebinding', 'functions do not rebind class or module variables (except counters that only grow)')
    ctx.rule('memo', 'memoised functions return immutable values')
    p = ctx.p
    t = Types(p)
    P = Paths(p, t)
    eff = P.effects()
    changed = {lab for f in eff for q, _ in eff[f] for lab in q[1:]}
    shared = {}
    for m in p.modules.values():
        for st in m.tree.body:
            if isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name) and not tg.id.startswith('__'):
                        shared[f'{m.name}.{tg.id}'] = (m, st.value)
    for c in p.classes.values():
        for name, v in P.class_vars(c).items():
            if name not in ('__slots__', '__doc__'):
                shared[f'{c.qual}.{name}'] = (c.module, v)
    ctx.count('class-level and module-level values', len(shared))
    hot = {k for k, (m, v) in shared.items() if mutable(p, m, v)}
    ctx.count('mutable ones', len(hot))
    for f in sorted(p.functions.values(), key=lambda f: f.qual):
        ctx.count('functions')
        mod = f.module
        for a, d in defaults(f):
            ctx.count('default values')
            if not mutable(p, mod, d):
                r = P.of(f, d) if isinstance(d, (ast.Name, ast.Attribute)) else set()
                if not any(q[0][1] in hot for q in r if len(q) == 1 and isinstance(q[0], tuple)):
                    ctx.ok()
                    continue
            bad = [q for q, _ in eff[f] if q[0] == a.arg]
            if bad:
                ctx.find('default-shared', mod.path, f.lineno, f'{f.qual}({a.arg})',
                         f'the default value {ast.unparse(d)} of {a.arg} is created once and changed in place: the change is '
                         f'seen by all later calls')
                continue
            kept = [x for x, v in stores(f) if (a.arg,) in P.of(f, v)] + \
                [n for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None and
                 (a.arg,) in P.of(f, n.value)] + \
                [n for n in own_nodes(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and
                 (a.arg,) in P.of(f, n.value)]
            if kept:
                ctx.find('default-shared', mod.path, kept[0].lineno, f'{f.qual}({a.arg})',
                         f'the default value {ast.unparse(d)} of {a.arg} is created once and handed out at line '
                         f'{kept[0].lineno}: all objects made without this argument share it')
            else:
                ctx.ok()
        hits = [(q, k) for q, k in sorted(eff[f], key=str) if isinstance(q[0], tuple) and q[0][0] == 'g' and q[0][1] in shared and
                not (plain(shared[q[0][1]][1]) and any('.' in lab for lab in q[1:]))]
        if hits:
            own = P.direct_effects(f)
            callees = [g for n in own_nodes(f.node) if isinstance(n, ast.Call) for g in P.targets(n) if g is not f]
            hits = [h for h in hits if h in own or not any(h in eff[g] for g in callees)]
        for q, _ in hits:
            ctx.find('shared-changed', mod.path, f.lineno, f'{f.qual}: {q[0][1]}',
                     f'changes {".".join((q[0][1],) + q[1:])} in place, which all objects and documents share')
        names = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Global):
                names |= set(n.names)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                counter = isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant)
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in names:
                            ctx.count('rebindings')
                            flag = isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and mod.name == 'bin.udapy'
                            if counter or flag:
                                ctx.ok(f'{f.qual}: {y.id} is a counter' if counter else None)
                            else:
                                ctx.find('rebinding', mod.path, n.lineno, f'{f.qual}: {y.id}',
                                         f'rebinds the module variable {y.id}, which all documents share')
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and class_object(p, P, f, y.value):
                            ctx.find('rebinding', mod.path, n.lineno, f'{f.qual}: {ast.unparse(y)}',
                                     f'{ast.unparse(y)} belongs to the class: all its objects share the new value')
        for x, v in stores(f):
            for q in P.of(f, v):
                if len(q) == 1 and isinstance(q[0], tuple) and q[0][0] == 'g' and q[0][1] in hot:
                    lab = P.label(f, x.value, x.attr)
                    ctx.count('shared objects stored in attributes')
                    if lab in changed or x.attr in {c.split('.')[-1] for c in changed} or \
                            isinstance(shared[q[0][1]][1], ast.Call):
                        ctx.find('shared-escape', mod.path, x.lineno, f'{f.qual}: {ast.unparse(x)}',
                                 f'{ast.unparse(x)} becomes {q[0][1]} itself, which other objects share, and is changed in '
                                 f'place elsewhere')
                    else:
                        ctx.ok()
        for d in f.node.decorator_list:
            name = ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1]
            if name in ('lru_cache', 'cache', 'cached_property'):
                ctx.count('memoised functions')
                rets = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None]
                kinds = {v for e in rets for v in t.of(mod, f, e)}
                if name != 'cached_property' and any(v[0] in ('o', 'i', 'I') for v in kinds):
                    ctx.find('memo', mod.path, f.lineno, f.qual, 'returns the same mutable object to all callers')
                else:
                    ctx.ok()
    for m in p.modules.values():
        ctx.count('modules')
        ctx.ok()
    ctx.floor('functions', 800)
    ctx.floor('default values', 300)
    ctx.floor('mutable ones', 20)


def class_object(p, P, f, e):
    """Does the expression denote a class (not one of its objects)?"""
    if isinstance(e, ast.Name) and f.is_classmethod and f.params and e.id == f.params[0]:
        return True
    if isinstance(e, ast.Attribute) and e.attr == '__class__':
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
        return True
    return P.global_chain(f, e) and hasattr(p.resolve_expr(f.module, e), 'find_method')
