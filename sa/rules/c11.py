"""C11: block parameters: accepted, forwarded to the base block, never silently ignored."""
import ast

from ..flow import Flow
from ..project import own_nodes
from ..util import bind_args

TECHNIQUE = 'must-call path analysis of constructors + parameter forwarding dataflow'
EXPLANATION = ('For every class derived from the block base class that defines a constructor: (1) on every normal '
               'path the base constructor is called exactly once (state-set dataflow over the constructor body, '
               'through branches, loops, try/finally); (2) a **kwargs parameter is forwarded to the base constructor '
               '(or kept), so that common parameters work and unknown ones are rejected by the root class; (3) every '
               'declared parameter is read; (4) a parameter forwarded to a base constructor parameter list binds to '
               'the parameter of the same name, and a parameter that a base constructor also declares is forwarded; '
               '(5) the root constructor stores the common parameters and rejects leftovers on every path.')
BASE = 'udapi.core.block.Block'


def is_super_init(call, cls):
    """Is this a call of a base-class constructor on self?  -> (bool, explicit_self)"""
    fn = call.func
    if not (isinstance(fn, ast.Attribute) and fn.attr == '__init__'):
        return False, False
    v = fn.value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
        return True, False
    if isinstance(v, (ast.Name, ast.Attribute)):
        nm = v.id if isinstance(v, ast.Name) else v.attr
        if any(c.name == nm for c in cls.mro()[1:]) and call.args and isinstance(call.args[0], ast.Name) \
                and call.args[0].id == 'self':
            return True, True
    return False, False


class InitCount(Flow):
    def __init__(self, cls, helpers):
        self.cls, self.helpers = cls, helpers

    def event(self, node, s):
        if isinstance(node, ast.Call):
            if is_super_init(node, self.cls)[0]:
                return min(s + 1, 2)
            fn = node.func
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self':
                return [min(s + k, 2) for k in self.helpers.get(fn.attr, {0})]
        return s


def parent_init(cls):
    for c in cls.mro()[1:]:
        if '__init__' in c.methods:
            return c.methods['__init__']
    return None


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def run(ctx):
    p = ctx.p
    ctx.rule('base-init', 'the base constructor is called exactly once on every normal path')
    ctx.rule('kwargs', '**kwargs reaches the base constructor (or is stored)')
    ctx.rule('param-read', 'every declared parameter is read by the constructor')
    ctx.rule('param-forward', 'parameters shared with the base constructor are forwarded to the same-named parameter')
    ctx.rule('root', 'the root block rejects unknown parameters and stores the common ones')
    base = p.cls(BASE)
    for cls in base.all_subs():
        init = cls.methods.get('__init__')
        if init is None:
            continue
        ctx.count('block_constructors')
        if cls is base:
            root(ctx, cls, init)
            continue
        one(ctx, cls, init)
    ctx.floor('block_constructors', 20)


def helper_counts(cls):
    """self-helper methods that (transitively) call the base constructor: name -> possible counts."""
    out = {}
    for name in {n for c in cls.mro() for n in c.methods}:
        f = cls.find_method(name)
        if name == '__init__' or f is None:
            continue
        if any(isinstance(n, ast.Call) and is_super_init(n, f.cls)[0] for n in own_nodes(f.node)):
            e = InitCount(f.cls, {}).run(f.node, {0})
            out[name] = e.next | e.ret or {0}
    return out


def one(ctx, cls, init):
    con = cls.qual + '.__init__'
    helpers = helper_counts(cls)
    ex = InitCount(cls, helpers).run(init.node, {0})
    counts = ex.next | ex.ret
    if counts - {1}:
        n = min(counts - {1})
        ctx.find('base-init', init.path, init.lineno, con,
                 f'the base constructor is called {n if n < 2 else "more than once"} time(s) on some path'
                 if n else 'some path never calls the base constructor, so the common block parameters are unset')
    else:
        ctx.ok(f'{con}: base constructor called once on every path')
    a = init.node.args
    params = init.params[1:] + [x.arg for x in a.kwonlyargs]
    # (3)
    reads = {n.id for n in ast.walk(init.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for x in params:
        if x.startswith('_'):
            continue
        ctx.count('parameters')
        if x in reads:
            ctx.ok()
        else:
            ctx.find('param-read', init.path, init.lineno, f'{con}|{x}',
                     f'parameter {x!r} is accepted and silently ignored')
    calls = [(n, is_super_init(n, cls)[1]) for n in own_nodes(init.node)
             if isinstance(n, ast.Call) and is_super_init(n, cls)[0]]
    # (2)
    if a.kwarg:
        kw = a.kwarg.arg
        derived = {kw}
        for _ in range(3):
            for n in own_nodes(init.node):
                if isinstance(n, ast.Assign) and names_in(n.value) & derived:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            derived.add(t.id)
        forwarded = any(k.arg is None and names_in(k.value) & derived for n, _ in calls for k in n.keywords)
        helper_fw = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                        and n.func.attr in helpers and any(k.arg is None for k in n.keywords)
                        for n in own_nodes(init.node))
        stored = any(isinstance(n, ast.Assign) and names_in(n.value) & derived and
                     any(isinstance(t, ast.Attribute) for t in n.targets) for n in own_nodes(init.node))
        if forwarded or helper_fw or stored:
            ctx.ok()
        else:
            ctx.find('kwargs', init.path, init.lineno, f'{con}|**{kw}',
                     f'**{kw} is not forwarded to the base constructor: zones= and misspelt parameters are '
                     'silently swallowed')
    swapped(ctx, cls, init, params)
    # (4)
    up = parent_init(cls)
    if up is None or not calls:
        return
    upnames = set(up.params[1:]) | {x.arg for x in up.node.args.kwonlyargs}
    for call, explicit in calls:
        b = bind_args(call, up.params, not explicit)
        for tgt, e in b.items():
            if isinstance(e, ast.Name) and e.id in params and e.id in upnames and tgt in upnames and e.id != tgt:
                ctx.find('param-forward', init.path, call.lineno, f'{con}|{e.id}->{tgt}',
                         f'parameter {e.id!r} is passed as {tgt!r} of {up.qual}')
            elif tgt in upnames:
                ctx.ok()
        star = any(isinstance(x, ast.Starred) for x in call.args)
        chain = set()
        for c in cls.mro()[1:]:
            f = c.methods.get('__init__')
            if f is not None:
                chain |= set(f.params[1:]) | {x.arg for x in f.node.args.kwonlyargs}
                if f.node.args.kwarg is None:
                    break
        for x in params:
            if x in chain:
                ctx.count('shared_parameters')
                set_here = any(isinstance(n, ast.Assign) and x in names_in(n.value) and
                               any(isinstance(t, ast.Attribute) for t in n.targets) for n in own_nodes(init.node))
                if x in b or star or set_here or any(x in names_in(e) for e in b.values()) or \
                        any(k.arg is None and not isinstance(k.value, ast.Name) for k in call.keywords):
                    ctx.ok()
                elif a.kwarg and any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)
                                     and names_in(n.value) & {a.kwarg.arg} for n in own_nodes(init.node)):
                    ctx.ok()
                else:
                    ctx.find('param-forward', init.path, call.lineno, f'{con}|{x}',
                             f'parameter {x!r}, which the base constructor declares too, is not passed on')


def swapped(ctx, cls, init, params):
    """self.A = <only B> where A and B are both parameters and A itself is stored nowhere under its name."""
    con = cls.qual + '.__init__'
    ps = set(params)
    stores = {}
    for n in own_nodes(init.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' \
                        and t.attr in ps:
                    stores.setdefault(t.attr, []).append(n)
    for attr, ns in stores.items():
        rhs = [names_in(n.value) & ps for n in ns]
        if any(attr in r for r in rhs):
            ctx.ok()
            continue
        other = set().union(*rhs)
        direct = [n for n in ns if isinstance(n.value, ast.Name) and n.value.id in ps]
        # control dependence (if attr: self.attr = ...) is a use as well
        if direct and not any(isinstance(n, (ast.If, ast.IfExp)) and attr in names_in(n.test)
                              for n in own_nodes(init.node)):
            ctx.find('param-forward', init.path, direct[0].lineno, f'{con}|self.{attr}',
                     f'attribute {attr!r} is set from parameter {sorted(other)[0]!r}, not from parameter {attr!r}')


class RootFlow(Flow):
    """State: (kwargs possibly non-empty?, stored attributes)."""

    def __init__(self, kw):
        self.kw = kw

    def event(self, node, s):
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name) \
                and node.value.id == 'self':
            return (s[0], s[1] | {node.attr})
        return s

    def refine(self, test, s, truth):
        e = self.emptiness(test)
        if e is not None:
            nonempty = truth == e
            if s[0] is None:
                return (nonempty, s[1])
            return s if s[0] == nonempty else None
        return s

    def emptiness(self, t):
        """True if the test being true means kwargs is non-empty, False if it means empty, None otherwise."""
        if isinstance(t, ast.Name) and t.id == self.kw:
            return True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('len', 'bool', 'any') \
                and len(t.args) == 1 and isinstance(t.args[0], ast.Name) and t.args[0].id == self.kw:
            return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            left, r, op = t.left, t.comparators[0], t.ops[0]
            zero = isinstance(r, ast.Constant) and r.value == 0
            islen = self.emptiness(left) is True
            emptyd = isinstance(r, ast.Dict) and not r.keys
            if islen and (zero or emptyd):
                if isinstance(op, (ast.NotEq, ast.Gt)):
                    return True
                if isinstance(op, (ast.Eq, ast.LtE)):
                    return False
            if islen and isinstance(r, ast.Constant) and r.value == 1 and isinstance(op, ast.GtE):
                return True
        return None


def root(ctx, cls, init):
    a = init.node.args
    con = cls.qual + '.__init__'
    params = init.params[1:] + [x.arg for x in a.kwonlyargs]
    if a.kwarg is None:
        ctx.ok(f'{con}: unknown parameters rejected by the interpreter (no **kwargs)')
        kw = None
    else:
        kw = a.kwarg.arg
    swapped(ctx, cls, init, params)
    fl = RootFlow(kw)
    ex = fl.run(init.node, {(None, frozenset())})
    normal = ex.next | ex.ret
    if kw is not None:
        if any(s[0] is not False for s in normal):
            ctx.find('root', init.path, init.lineno, f'{con}|reject',
                     'a path through the root block constructor accepts unknown parameters without an error')
        else:
            ctx.ok(f'{con}: every normal path has empty leftover parameters')
    for x in params:
        reads = {n.id for n in ast.walk(init.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if x not in reads:
            ctx.find('root', init.path, init.lineno, f'{con}|{x}', f'parameter {x!r} is silently ignored')
        elif any(x not in s[1] for s in normal) and x in {n.attr for m in cls.methods.values()
                                                           for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}:
            ctx.find('root', init.path, init.lineno, f'{con}|self.{x}',
                     f'a path leaves attribute {x!r} unset')
        else:
            ctx.ok()
