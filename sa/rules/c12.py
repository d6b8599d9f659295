"""C12: every block can be loaded by its name and all its processing methods take part."""
import ast

from ..flow import Flow
from ..project import own_nodes

EXPLANATION = ('Every module under udapi/block is checked to offer a class reachable under the name a scenario uses; every '
               'override of a framework method is checked against the arguments the framework passes; every override '
               'of a set-up or finishing method whose inherited version does something is checked, on all its normal '
               'paths, to run the inherited version; every process_* method is checked to be reachable from the '
               'framework\'s dispatch through the methods the block overrides.')
TECHNIQUE = 'override/protocol analysis with must-call path dataflow and dispatch reachability'

# hook -> number of positional arguments the framework passes (besides self)
HOOKS = {'process_start': 0, 'process_end': 0, 'before_process_document': 1, 'after_process_document': 1,
         'process_document': 1, 'process_bundle': 1, 'process_tree': 1, 'process_node': 1, 'process_empty_node': 1,
         'process_coref_entity': 1, 'process_coref_mention': 1, 'apply_on_document': 1, 'run': 1,
         '_should_process_tree': 1, '_should_process_bundle': 1}
CHAINED = ('process_start', 'process_end', 'before_process_document', 'after_process_document')
# who calls the hook in the framework, if that caller is not overridden
DISPATCH = {'process_bundle': ['process_document'], 'process_tree': ['process_bundle', 'process_document'],
            'process_node': ['process_tree', 'process_document'], 'process_empty_node': ['process_document'],
            'process_coref_entity': ['process_document'],
            'process_coref_mention': ['process_coref_entity', 'process_document'],
            'process_document': ['apply_on_document']}


def accepts(f, n):
    a = f.node.args
    pos = a.posonlyargs + a.args
    have = len(pos) - (0 if f.is_static else 1)
    need = have - len(a.defaults)
    kwneed = [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return not kwneed and need <= n and (n <= have or a.vararg is not None)


def trivial(f):
    return all(isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
               for st in f.node.body)


def calls_base(p, f, n, name=None):
    """Does this call run another class's version of the method f overrides (or of the one with the given name)?"""
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == (name or f.name)):
        return False
    v = n.func.value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
        return True
    c = p.resolve_expr(f.module, v, f)
    return c is not None and hasattr(c, 'find_method') and f.cls.is_sub(c)


class MustCall(Flow):
    """State: has the inherited version been run?"""

    def __init__(self, p, f, name=None, depth=0):
        self.p, self.f, self.name, self.depth = p, f, name or f.name, depth

    def may_raise(self, node):
        return False

    def helper(self, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and self.f.params and self.depth < 3 and \
                isinstance(node.func.value, ast.Name) and node.func.value.id == self.f.params[0] and self.f.cls is not None:
            return self.f.cls.find_method(node.func.attr)
        return None

    def event(self, node, state):
        if state or calls_base(self.p, self.f, node, self.name):
            return True
        g = self.helper(node)
        if g is not None:
            out = MustCall(self.p, g, self.name, self.depth + 1).run(g.node, {state})
            return list(out.next | out.ret)
        return state


def inherited(cls, name):
    for c in cls.mro()[1:]:
        if name in c.methods:
            return c.methods[name]
    return None


def self_calls(f):
    """Names of methods f runs on self (directly or through super())."""
    out = set()
    if not f.params:
        return out
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute):
            v = n.value
            if isinstance(v, ast.Name) and v.id == f.params[0]:
                out.add((n.attr, False))
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                out.add((n.attr, True))
            elif isinstance(v, (ast.Name, ast.Attribute)) and n.attr in HOOKS:
                out.add((n.attr, True))
    return out


def reachable(cls, block):
    """Names of the methods of a block that run when the framework runs it (closed over calls on self)."""
    live, work = set(), [(n, cls) for n in ('__init__', 'process_start', 'process_end', 'before_process_document',
                                            'after_process_document', 'apply_on_document', 'process_document')]
    while work:
        name, c = work.pop()
        f = c.find_method(name) or c.find_getter(name)
        if f is None or f in live:
            continue
        live.add(f)
        for attr, up in self_calls(f):
            if up:
                for b in (f.cls.mro()[1:] if f.cls is not None else []):
                    if attr in b.methods:
                        if b.methods[attr] not in live:
                            live.add(b.methods[attr])
                            for a2, u2 in self_calls(b.methods[attr]):
                                work.append((a2, cls))
                        break
            work.append((attr, cls))
    return live


ORDERS = [('udapi.core.block.Block.run', ('process_start', 'apply_on_document', 'process_end')),
          ('udapi.core.block.Block.apply_on_document',
           ('before_process_document', 'process_document', 'after_process_document')),
          ('udapi.core.run.Run.run_blocks', ('process_start', 'apply_on_document', 'process_end'))]


class Order(Flow):
    """State: the framework methods called so far (repetitions merged)."""
    loops_run = True

    def __init__(self, p, f, names, depth=0):
        self.p, self.f, self.names, self.depth = p, f, names, depth

    def may_raise(self, node):
        return False

    def event(self, node, state):
        if isinstance(node, ast.Call) and isinstance(node.func, (ast.Attribute, ast.Name)):
            name = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id
            if name in self.names:
                return state if state and state[-1] == name else (state + (name,))[:8]
            g = None
            if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and self.f.params and \
                    node.func.value.id == self.f.params[0] and self.f.cls is not None:
                g = self.f.cls.find_method(name)
            elif isinstance(node.func, ast.Name):
                r = self.p.resolve_in_module(self.f.module, name)
                g = r if r in self.p.functions.values() else None
            if g is not None and self.depth < 3:
                out = Order(self.p, g, self.names, self.depth + 1).run(g.node, {state})
                return list(out.next | out.ret)
        return state


FLAGS = ('process_coref_entity', 'process_coref_mention', 'process_bundle', 'process_tree', 'process_node',
         'process_empty_node')


def expected(over):
    """Which of the overridden methods the framework has to call itself (the others are up to overridden callers)."""
    out = set()
    if 'process_coref_entity' in over:
        out.add('process_coref_entity')
    elif 'process_coref_mention' in over:
        out.add('process_coref_mention')
    if 'process_bundle' in over:
        out.add('process_bundle')
    elif 'process_tree' in over:
        out.add('process_tree')
    else:
        out |= over & {'process_node', 'process_empty_node'}
    return out


class Dispatch(Flow):
    """Follows process_document for one set of overridden methods. State: (hooks called, known truth of variables)."""
    loops_run = True

    def __init__(self, block, f, marks, over, depth=0):
        self.blk, self.f, self.marks, self.over, self.depth = block, f, marks, over, depth

    def may_raise(self, node):
        return False

    def hook(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.f.params and \
                e.value.id == self.f.params[0]:
            return e.attr
        return None

    def truth(self, e, env):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            return dict(env).get(e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand, env)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(v, env) for v in e.values]
            stop = isinstance(e.op, ast.Or)
            return stop if stop in vs else (None if None in vs else not stop)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ('any', 'all') and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
                op = ast.Or() if e.func.id == 'any' else ast.And()
                return self.truth(ast.BoolOp(op=op, values=e.args[0].elts), env) if e.args[0].elts else e.func.id == 'all'
            if e.func.id in ('hasattr', 'getattr') and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and \
                    self.hook(e.args[0]) in FLAGS:
                name = self.hook(e.args[0])
                return name not in self.over and e.args[1].value in self.marks.get(name, ())
            if e.func.id == 'bool' and len(e.args) == 1:
                return self.truth(e.args[0], env)
            for n in ast.walk(self.f.node):        # a local helper: overridden(self.process_x)
                if isinstance(n, ast.FunctionDef) and n.name == e.func.id and len(n.body) == 1 and \
                        isinstance(n.body[0], ast.Return) and len(n.args.args) == len(e.args) and n.body[0].value is not None:
                    sub = {a.arg: x for a, x in zip(n.args.args, e.args)}
                    return self.truth(Subst(sub).visit(ast.parse(ast.unparse(n.body[0].value), mode='eval').body), env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and self.hook(e.func) is not None:
            g = self.blk.find_method(self.hook(e.func))
            if g is not None and g.name not in FLAGS:
                rets = [n for n in own_nodes(g.node) if isinstance(n, ast.Return)]
                ps = g.params if g.is_static else g.params[1:]
                if len(rets) == 1 and rets[0].value is not None and len(ps) == len(e.args):
                    sub = dict(zip(ps, e.args))
                    return self.truth(Subst(sub).visit(ast.parse(ast.unparse(rets[0].value), mode='eval').body), env)
        return None

    def event(self, node, state):
        called, env = state
        if isinstance(node, ast.Assign):
            names = [(a, v) for t in node.targets for a, v in pairs(t, node.value) if isinstance(a, ast.Name)]
            new = dict(env)
            for a, v in names:
                new[a.id] = self.truth(v, env) if v is not None else None
            return (called, frozenset(new.items()))
        if isinstance(node, ast.Call) and self.hook(node.func) is not None:
            name = self.hook(node.func)
            if name in FLAGS:
                return (called | {name}, env)
            g = self.blk.find_method(name)
            if g is not None and self.depth < 4:
                ps = g.params if g.is_static else g.params[1:]
                env2 = {x: self.truth(a, env) for x, a in zip(ps, node.args)}
                env2.update({k.arg: self.truth(k.value, env) for k in node.keywords if k.arg})
                out = Dispatch(self.blk, g, self.marks, self.over, self.depth + 1).run(
                    g.node, {(called, frozenset(env2.items()))})
                return [(c, env) for c, _ in out.next | out.ret]
        return state

    def refine(self, test, state, truth):
        v = self.truth(test, state[1])
        return None if v is not None and v != truth else state


class Subst(ast.NodeTransformer):
    def __init__(self, sub):
        self.sub = sub

    def visit_Name(self, node):
        return self.sub.get(node.id, node)


def pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            return list(zip(t.elts, v.elts))
        return [(x, None) for x in t.elts]
    return [(t, v)]


def marks_of(p, f):
    """Attributes the decorators of a framework method set on it."""
    out = set()
    for d in f.node.decorator_list:
        g = p.resolve_expr(f.module, d)
        if g is not None and hasattr(g, 'params') and g.params:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Assign):
                    out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and
                            isinstance(t.value, ast.Name) and t.value.id == g.params[0]}
    return out


def run(ctx):
    p = ctx.p
    ctx.rule('dispatch', 'for every set of overridden process_* methods, the framework calls those it is responsible for')
    block = p.classes['udapi.core.block.Block']
    driver = block.methods.get('process_document')
    marks = {n: marks_of(p, block.methods[n]) for n in FLAGS if n in block.methods}
    for bits in range(1, 1 << len(FLAGS)):
        over = {n for i, n in enumerate(FLAGS) if bits >> i & 1}
        ctx.count('sets of overridden methods')
        if driver is None:
            ctx.undet('Block.process_document not found')
            break
        out = Dispatch(block, driver, marks, over).run(driver.node, {(frozenset(), frozenset())})
        seen = set().union(*[c for c, _ in out.next | out.ret]) if out.next | out.ret else set()
        lost = sorted(expected(over) - seen)
        if lost:
            ctx.find('dispatch', driver.module.path, driver.lineno, f'{driver.qual}: {lost[0]}',
                     f'a block overriding {", ".join(sorted(over))} never gets its {lost[0]} called')
        else:
            ctx.ok()
    ctx.rule('order', 'the framework runs the set-up, processing and finishing methods once each, in this order')
    for qual, names in ORDERS:
        f = p.functions.get(qual)
        if f is None:
            ctx.undet(f'{qual} not found')
            continue
        ctx.count('framework drivers')
        out = Order(p, f, names).run(f.node, {()})
        bad = [s for s in out.next | out.ret if s != names]
        if bad:
            ctx.find('order', f.module.path, f.lineno, f.qual,
                     f'a normal path runs {" -> ".join(bad[0]) or "nothing"} instead of {" -> ".join(names)}')
        else:
            ctx.ok(f'{qual}: {" -> ".join(names)}')
    ctx.rule('loadable', 'a block module offers a class with the module\'s name')
    ctx.rule('signature', 'overrides of framework methods accept the arguments the framework passes')
    ctx.rule('chain', 'overrides of set-up and finishing methods run the inherited version on every normal path')
    ctx.rule('dead-hook', 'no process_* method of a block is cut off by another method the block overrides')
    block = p.classes['udapi.core.block.Block']
    subs = {c for c in p.classes.values() if c.is_sub(block) and c is not block}
    for m in p.modules.values():
        parts = m.name.split('.')
        if not m.name.startswith('udapi.block.') or m.path.endswith('__init__.py') or 'tests' in parts:
            continue
        mine = [c for c in subs if c.module is m]
        offered = [c for c in subs for n in [c.qual.rsplit('.', 1)[1]] if p.resolve_in_module(m, n) is c]
        if not mine:
            continue
        ctx.count('block modules')
        if any(c.qual.rsplit('.', 1)[1].lower() == parts[-1] for c in mine + offered):
            ctx.ok(m.name)
        else:
            names = ', '.join(c.qual.rsplit('.', 1)[1] for c in mine)
            ctx.find('loadable', m.path, 1, m.name,
                     f'defines only {names}: a scenario cannot load any of them, because block classes are looked up in '
                     f'the module with the lower-cased class name')
    live0 = reachable(block, block)
    for name in DISPATCH:
        if block.find_method(name) is None:
            ctx.undet(f'Block.{name} not found')
        elif block.find_method(name) in live0:
            ctx.ok()
        else:
            ctx.find('dead-hook', block.module.path, block.find_method(name).lineno, f'Block.{name}',
                     f'the framework never calls {name}')
    for c in sorted(subs, key=lambda c: c.qual):
        for name, f in c.methods.items():
            if name in HOOKS:
                ctx.count('hook overrides')
                if accepts(f, HOOKS[name]):
                    ctx.ok()
                else:
                    ctx.find('signature', f.module.path, f.lineno, f.qual,
                             f'the framework calls {name} with {HOOKS[name]} argument(s), this override does not accept '
                             f'them')
            if name in CHAINED:
                base = inherited(c, name)
                if base is None or trivial(base):
                    continue
                ctx.count('lifecycle overrides')
                out = MustCall(p, f).run(f.node, {False})
                if False in out.next | out.ret:
                    ctx.find('chain', f.module.path, f.lineno, f.qual,
                             f'can finish without running {base.qual}, which the framework relies on')
                else:
                    ctx.ok(f.qual)
        live = None
        for name, f in c.methods.items():
            if name not in DISPATCH:
                continue
            if live is None:
                live = reachable(c, block)
            ctx.count('process methods')
            if f in live:
                ctx.ok()
            else:
                via = [d for d in DISPATCH[name] if d in c.methods]
                ctx.find('dead-hook', f.module.path, f.lineno, f.qual,
                         f'never runs: the class overrides {" and ".join(via) or "the caller"}, which does not call it')
    ctx.floor('block modules', 120)
    ctx.floor('hook overrides', 150)
    ctx.floor('lifecycle overrides', 3)
