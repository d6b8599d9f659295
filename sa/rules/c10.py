"""C10: writers print everything to their own file and leave standard output and garbage collection as they were."""
import ast

from ..flow import Flow
from ..project import own_nodes
from .c12 import MustCall, calls_base, inherited

EXPLANATION = ('For every writer class the drive method is followed through all methods it runs on itself (virtual calls '
               'resolved for that class), with every call allowed to fail, tracking whether standard output points to '
               'the original stream: all normal and exceptional exits must restore it. Headers must be printed after '
               'the stream was switched and footers before it is switched back. Every function that disables garbage '
               'collection must leave it as it found it on every exit.')
TECHNIQUE = 'interprocedural typestate dataflow over normal and exceptional paths'


def is_std(node, name='stdout'):
    return isinstance(node, ast.Attribute) and node.attr == name and isinstance(node.value, ast.Name) and \
        node.value.id == 'sys'


class Stdout(Flow):
    """State: 'orig' or 'other' (where sys.stdout points)."""

    def __init__(self, eng, f, cls):
        self.eng, self.f, self.cls = eng, f, cls
        self.saved = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for a, v in self.pairs(t, n.value):
                        if isinstance(a, ast.Name):
                            self.saved.setdefault(a.id, []).append(v)

    @staticmethod
    def pairs(t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                return list(zip(t.elts, v.elts))
            return [(x, None) for x in t.elts]
        return [(t, v)]

    def original(self, v):
        """Does the expression denote the stream that was standard output before the writer switched it?"""
        if v is None:
            return False
        if isinstance(v, ast.Attribute) and v.attr in self.eng.saved_attrs:
            return True
        if isinstance(v, ast.Attribute) and is_std(v, '__stdout__'):
            return True
        if isinstance(v, ast.Name) and v.id in self.saved:
            return all(x is not None and (is_std(x) or self.original(x)) for x in self.saved[v.id])
        return False

    def may_raise(self, node):
        if isinstance(node, ast.Call):
            return True
        return isinstance(node, (ast.Raise, ast.Assert, ast.Subscript))

    def event(self, node, state):
        if isinstance(node, ast.Attribute) and is_std(node) and isinstance(node.ctx, ast.Store):
            return self.eng.store(self, node, state)
        return state

    def _ev(self, node, states, out):
        if isinstance(node, ast.Call):
            gs = self.eng.targets(self, node)
            if gs:
                res = set()
                for g in gs:
                    for s in states:
                        nxt, exc = self.eng.summary(g, self.cls, s)
                        res |= nxt
                        out.exc |= exc
                return res
        return super()._ev(node, states, out)

    def refine(self, test, state, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, state, not truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            a, b = test.left, test.comparators[0]
            op = test.ops[0]
            sides = [x for x in (a, b) if is_std(x) or isinstance(x, ast.Name) and
                     x.id in self.saved and all(is_std(v) for v in self.saved[x.id])]
            if sides and any(isinstance(x, ast.Attribute) and x.attr in self.eng.saved_attrs for x in (a, b)) and \
                    is_std(sides[0]):
                same = isinstance(op, (ast.Is, ast.Eq)) == truth if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) \
                    else None
                if same is True:
                    return 'orig'
        return state

    def with_exit(self, item, state):
        return state


class Engine:
    def __init__(self, p, scopes):
        self.p = p
        self.memo = {}
        self.busy = set()
        self.saved_attrs = set()
        for f in p.functions.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and is_std(n.value):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and not is_std(t):
                            self.saved_attrs.add(t.attr)
        # functions that may switch standard output, directly or through methods they call
        self.touch = {f for f in p.functions.values()
                      if any(isinstance(n, ast.Attribute) and is_std(n) and isinstance(n.ctx, ast.Store)
                             for n in own_nodes(f.node))}
        self.values = {}
        for f in self.touch:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for a, v in Stdout.pairs(t, n.value):
                            self.values[a] = v

    def store(self, flow, node, state):
        return 'orig' if flow.original(self.values.get(node)) else 'other'

    def targets(self, flow, call):
        fn = call.func
        f = flow.f
        if isinstance(fn, ast.Attribute) and f.params:
            v = fn.value
            if isinstance(v, ast.Name) and v.id == f.params[0] and flow.cls is not None:
                g = flow.cls.find_method(fn.attr)
                return [g] if g is not None else []
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                mro = flow.cls.mro() if flow.cls is not None else f.cls.mro()
                start = f.cls
                if v.args:
                    c = self.p.resolve_expr(f.module, v.args[0], f)
                    start = c if c in mro else f.cls
                for c in mro[mro.index(start) + 1:] if start in mro else []:
                    if fn.attr in c.methods:
                        return [c.methods[fn.attr]]
            c = self.p.resolve_expr(f.module, v, f)
            if c is not None and hasattr(c, 'find_method'):
                g = c.find_method(fn.attr)
                return [g] if g is not None else []
        return []

    def summary(self, g, cls, state):
        key = (g, cls, state)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return {state}, {state}
        self.busy.add(key)
        out = Stdout(self, g, cls).run(g.node, {state})
        self.busy.discard(key)
        r = (out.next | out.ret, out.exc)
        self.memo[key] = r
        return r


class Printed(MustCall):
    """State: has the inherited version (which switches the stream) been run?"""

    def __init__(self, p, f, header, name=None, depth=0):
        super().__init__(p, f, name, depth)
        self.header, self.bad = header, None

    def event(self, node, state):
        if calls_base(self.p, self.f, node, self.name):
            return True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'print' and \
                not any(k.arg == 'file' for k in node.keywords):
            if state != self.header:
                self.bad = node
        g = self.helper(node)
        if g is not None:
            inner = Printed(self.p, g, self.header, self.name, self.depth + 1)
            out = inner.run(g.node, {state})
            self.bad = self.bad or inner.bad and node
            return list(out.next | out.ret)
        return state


class GcFlow(Flow):
    """State (now, before): now is 'on' or 'off', before is how the caller had it."""

    def __init__(self, p, f, names, touch, depth=0):
        self.p, self.f, self.touch, self.depth = p, f, touch, depth
        self.names = set(names)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and (is_gc(n.value, 'isenabled') or self.helper(n.value) is not None):
                self.names |= {t.id for t in n.targets if isinstance(t, ast.Name)}

    def helper(self, node):
        if not isinstance(node, ast.Call):
            return None
        fn, g = node.func, None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.f.params and \
                fn.value.id == self.f.params[0] and self.f.cls is not None:
            g = self.f.cls.find_method(fn.attr)
        elif isinstance(fn, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(self.f.module, fn, self.f)
            g = r if hasattr(r, 'params') else None
        return g if g in self.touch and self.depth < 3 else None

    def may_raise(self, node):
        return isinstance(node, (ast.Call, ast.Raise, ast.Assert, ast.Subscript)) and not is_gc(node)

    def _exc_states(self, node, s):
        return self.inner(node, s).exc if self.helper(node) is not None else (s,)

    def event(self, node, state):
        if is_gc(node, 'disable'):
            return ('off', state[1])
        if is_gc(node, 'enable'):
            return ('on', state[1])
        if self.helper(node) is not None:
            out = self.inner(node, state)
            return list(out.next | out.ret)
        return state

    def inner(self, node, state):
        g = self.helper(node)
        if g is not None:
            params = g.params[1:] if g.cls is not None and not g.is_static else g.params
            names = {x for a, x in zip(node.args, params) if isinstance(a, ast.Name) and a.id in self.names}
            names |= {k.arg for k in node.keywords if isinstance(k.value, ast.Name) and k.value.id in self.names}
            return GcFlow(self.p, g, names, self.touch, self.depth + 1).run(g.node, {state})

    def refine(self, test, state, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, state, not truth)
        if isinstance(test, ast.Name) and test.id in self.names:
            return state if (state[1] == 'on') == truth else None
        if is_gc(test, 'isenabled'):
            return state if (state[0] == 'on') == truth else None
        return state


def is_gc(node, name=None):
    return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) \
        and node.func.value.id == 'gc' and (name is None or node.func.attr == name)


def run(ctx):
    p = ctx.p
    ctx.rule('stdout-restored', 'whatever happens while a writer runs, standard output points to the original stream '
                                'afterwards')
    ctx.rule('outside-file', 'what a writer prints before and after a document goes to the writer\'s file')
    ctx.rule('gc-restored', 'garbage collection is left as it was found, on every exit')
    writer = p.classes.get('udapi.core.basewriter.BaseWriter')
    eng = Engine(p, None)
    ctx.count('functions switching standard output', len(eng.touch))
    classes = [c for c in p.classes.values() if writer is not None and c.is_sub(writer)]
    for c in sorted(classes, key=lambda c: c.qual):
        ctx.count('writer classes')
        g = c.find_method('apply_on_document')
        if g is None:
            ctx.undet(f'{c.qual}: no apply_on_document')
            continue
        nxt, exc = eng.summary(g, c, 'orig')
        for what, states in (('a normal', nxt), ('an exceptional', exc)):
            if 'other' in states:
                near = g if g.cls is c else writer.methods.get('apply_on_document') or writer.methods.get(
                    'after_process_document') or g
                ctx.find('stdout-restored', near.module.path, near.lineno, f'{near.qual}: {what} exit',
                         f'{what} exit of {c.qual} can leave sys.stdout redirected to the writer\'s file')
            else:
                ctx.ok(f'{c.qual}: {what} exit')
        for name, header in (('before_process_document', True), ('after_process_document', False)):
            f = c.methods.get(name)
            if f is None or c is writer or inherited(c, name) is None:
                continue
            ctx.count('headers and footers')
            fl = Printed(p, f, header)
            fl.run(f.node, {False})
            if fl.bad is not None:
                ctx.find('outside-file', f.module.path, fl.bad.lineno, f.qual,
                         f'prints {"before the output file is opened" if header else "after the output file was closed"}: '
                         f'the text goes to the wrong stream')
            else:
                ctx.ok(f.qual)
    for f in sorted(eng.touch, key=lambda f: f.qual):
        if f.cls is not None and writer is not None and f.cls.is_sub(writer):
            continue
        ctx.count('other functions switching standard output')
        nxt, exc = eng.summary(f, f.cls, 'orig')
        if 'other' in nxt | exc:
            ctx.find('stdout-restored', f.module.path, f.lineno, f.qual, 'an exit leaves sys.stdout redirected')
        else:
            ctx.ok(f.qual)
    touch = {f for f in p.functions.values() if any(is_gc(n, 'disable') or is_gc(n, 'enable') for n in own_nodes(f.node))}
    helpers = set()
    for f in p.functions.values():
        fl = GcFlow(p, f, (), touch)
        helpers |= {g for n in own_nodes(f.node) for g in [fl.helper(n)] if g is not None}
    tops = {f for f in touch if f not in helpers or not f.name.startswith('_')}
    for f in p.functions.values():
        fl = GcFlow(p, f, (), touch)
        if any(fl.helper(n) in helpers - tops for n in own_nodes(f.node) if isinstance(n, ast.Call)):
            tops.add(f)
    for f in sorted(tops, key=lambda f: f.qual):
        ctx.count('functions disabling garbage collection')
        out = GcFlow(p, f, (), touch).run(f.node, {('on', 'on'), ('off', 'off')})
        bad = [s for s in out.next | out.ret | out.exc if s[0] != s[1]]
        if bad:
            ctx.find('gc-restored', f.module.path, f.lineno, f.qual,
                     'an exit leaves garbage collection disabled' if bad[0][0] == 'off' else
                     'garbage collection is switched on although it was off before')
        else:
            ctx.ok(f.qual)
    ctx.floor('writer classes', 15)
    ctx.floor('functions switching standard output', 2)
    ctx.floor('functions disabling garbage collection', 1)
