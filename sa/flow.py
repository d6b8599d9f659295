"""Structured forward dataflow over Python statements: sets of hashable states, all exits.

A client subclasses Flow and overrides ``event`` (one evaluated node, in evaluation order),
``refine`` (branch conditions) and ``may_raise``.  The engine follows if/for/while/try/with/match,
break/continue/return/raise, and runs ``finally`` suites and ``with`` exits on every exit path.
Loops run to a fixpoint of the (finite) state set.
"""
import ast


class Exits:
    __slots__ = ('next', 'ret', 'exc', 'brk', 'cont')

    def __init__(self):
        self.next, self.ret, self.exc, self.brk, self.cont = set(), set(), set(), set(), set()

    def absorb(self, other, skip=()):
        for k in ('next', 'ret', 'exc', 'brk', 'cont'):
            if k not in skip:
                getattr(self, k).update(getattr(other, k))


CATCH_ALL = {'BaseException', 'Exception'}


class Flow:
    max_states = 4000
    loops_run = False      # assume that every loop body runs at least once

    # ---- client interface
    def event(self, node, state):
        """State(s) after evaluating this node; return a state, None (path dies) or a list."""
        return state

    def refine(self, test, state, truth):
        return state

    def may_raise(self, node):
        return isinstance(node, (ast.Call, ast.Subscript, ast.Raise, ast.Assert, ast.BinOp, ast.Yield,
                                 ast.YieldFrom, ast.Await))

    def with_exit(self, item, state):
        return state

    def handler_enter(self, handler, state):
        return state

    # ---- expression evaluation
    def _ev(self, node, states, out):
        res = set()
        for s in states:
            if self.may_raise(node):
                out.exc.update(self._exc_states(node, s))
            r = self.event(node, s)
            if r is None:
                continue
            if isinstance(r, list):
                res.update(r)
            else:
                res.add(r)
        if len(res) > self.max_states:
            raise OverflowError('state set too large')
        return res

    def _exc_states(self, node, s):
        return (s,)

    def expr(self, node, states, out):
        if node is None or not states:
            return states
        if isinstance(node, (ast.Lambda, ast.Constant)):
            return self._ev(node, states, out)
        if isinstance(node, ast.BoolOp):
            live, done = states, set()
            for i, v in enumerate(node.values):
                live = self.expr(v, live, out)
                if i + 1 < len(node.values):
                    want = isinstance(node.op, ast.Or)
                    for s in live:
                        r = self.refine(v, s, want)
                        if r is not None:
                            done.add(r)
                    live = self._refine_set(v, live, not want)
            return self._ev(node, live | done, out)
        if isinstance(node, ast.IfExp):
            st = self.expr(node.test, states, out)
            a = self.expr(node.body, self._refine_set(node.test, st, True), out)
            b = self.expr(node.orelse, self._refine_set(node.test, st, False), out)
            return self._ev(node, a | b, out)
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            st = states
            for i, g in enumerate(node.generators):
                st = self.expr(g.iter, st, out)
                st2 = self._ev(g.target, st, out)
                for c in g.ifs:
                    st2 = self._refine_set(c, self.expr(c, st2, out), True)
                st = st | st2
            if isinstance(node, ast.DictComp):
                st = self.expr(node.value, self.expr(node.key, st, out), out)
            else:
                st = self.expr(node.elt, st, out)
            return self._ev(node, st, out)
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)):
                continue
            if isinstance(ch, ast.keyword):
                states = self.expr(ch.value, states, out)
            elif isinstance(ch, ast.comprehension):
                continue
            else:
                states = self.expr(ch, states, out)
        return self._ev(node, states, out)

    def _refine_set(self, test, states, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self._refine_set(test.operand, states, not truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == truth:
            for v in test.values:
                states = self._refine_set(v, states, truth)
            return states
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == truth else set()
        out = set()
        for s in states:
            r = self.refine(test, s, truth)
            if r is not None:
                out.add(r)
        return out

    # ---- statements
    def block(self, stmts, states):
        out = Exits()
        cur = set(states)
        for st in stmts:
            if not cur:
                break
            r = self.stmt(st, cur)
            out.absorb(r, skip=('next',))
            cur = r.next
            if len(cur) > self.max_states:
                raise OverflowError('state set too large')
        out.next = cur
        return out

    def stmt(self, st, states):
        out = Exits()
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                states = self.expr(d, states, out)
            if not isinstance(st, ast.ClassDef):
                for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                    states = self.expr(d, states, out)
            out.next = self._ev(st, states, out)
        elif isinstance(st, ast.If):
            s = self.expr(st.test, states, out)
            a = self.block(st.body, self._refine_set(st.test, s, True))
            b = self.block(st.orelse, self._refine_set(st.test, s, False))
            out.absorb(a)
            out.absorb(b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            s = self.expr(st.iter, states, out)
            s = self._ev_iter(st, s, out)
            seen, ends = set(), set()
            todo = set(s)
            first = True
            while todo or first:
                first = False
                t = self.expr(st.target, todo, out)
                b = self.block(st.body, t)
                out.ret |= b.ret
                out.exc |= b.exc
                out.next |= b.brk
                seen |= todo
                back = b.next | b.cont
                ends |= back
                todo = back - seen
                if len(seen) > self.max_states:
                    raise OverflowError('state set too large')
            exits = self._loop_end(st, ends if self.loops_run else ends | s)
            e = self.block(st.orelse, exits)
            out.absorb(e)
        elif isinstance(st, ast.While):
            seen, todo, exits = set(), set(states), set()
            first = True
            while todo:
                seen |= todo
                s = self.expr(st.test, todo, out)
                if not (first and self.loops_run):
                    exits |= self._refine_set(st.test, s, False)
                first = False
                b = self.block(st.body, self._refine_set(st.test, s, True))
                out.ret |= b.ret
                out.exc |= b.exc
                out.next |= b.brk
                todo = (b.next | b.cont) - seen
                if len(seen) > self.max_states:
                    raise OverflowError('state set too large')
            e = self.block(st.orelse, exits)
            out.absorb(e)
        elif isinstance(st, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            b = self.block(st.body, states)
            inner = Exits()
            inner.ret, inner.brk, inner.cont = b.ret, b.brk, b.cont
            exc = set(b.exc)
            caught_all = False
            for h in st.handlers:
                hs = set()
                for s in exc:
                    r = self.handler_enter(h, s)
                    if r is not None:
                        hs.add(r)
                hs = self._ev(h, hs, inner)
                r = self.block(h.body, hs)
                inner.absorb(r)
                names = []
                if h.type is None:
                    caught_all = True
                else:
                    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        names.append(t.id if isinstance(t, ast.Name) else getattr(t, 'attr', ''))
                    if set(names) & CATCH_ALL:
                        caught_all = True
                if caught_all:
                    break
            if not caught_all:
                inner.exc |= exc
            e = self.block(st.orelse, b.next)
            inner.absorb(e)
            if st.finalbody:
                for k in ('next', 'ret', 'exc', 'brk', 'cont'):
                    src = getattr(inner, k)
                    if not src:
                        continue
                    f = self.block(st.finalbody, src)
                    getattr(out, k).update(f.next)
                    out.absorb(f, skip=('next',))
            else:
                out.absorb(inner)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            s = states
            for it in st.items:
                s = self.expr(it.context_expr, s, out)
                s = self._ev(it, s, out)
                if it.optional_vars is not None:
                    s = self.expr(it.optional_vars, s, out)
            b = self.block(st.body, s)
            suppress = any(isinstance(it.context_expr, ast.Call)
                           and getattr(it.context_expr.func, 'attr',
                                       getattr(it.context_expr.func, 'id', '')) == 'suppress'
                           for it in st.items)
            for k in ('next', 'ret', 'exc', 'brk', 'cont'):
                ss = set()
                for x in getattr(b, k):
                    for it in reversed(st.items):
                        x = self.with_exit(it, x)
                    ss.add(x)
                getattr(out, k).update(ss)
                if k == 'exc' and suppress:
                    out.next |= ss
        elif isinstance(st, ast.Return):
            s = self.expr(st.value, states, out)
            out.ret = self._ev(st, s, out)
        elif isinstance(st, ast.Raise):
            s = self.expr(st.exc, states, out)
            s = self.expr(st.cause, s, out)
            out.exc |= self._ev(st, s, out)
        elif isinstance(st, ast.Break):
            out.brk = set(states)
        elif isinstance(st, ast.Continue):
            out.cont = set(states)
        elif isinstance(st, ast.Assert):
            s = self.expr(st.test, states, out)
            out.exc |= self._refine_set(st.test, s, False)
            out.next = self._refine_set(st.test, s, True)
        elif isinstance(st, ast.Assign):
            s = self.expr(st.value, states, out)
            for t in st.targets:
                s = self.expr(t, s, out)
            out.next = self._ev(st, s, out)
        elif isinstance(st, ast.AugAssign):
            s = self.expr(st.value, states, out)
            s = self._aug_read(st, s, out)
            s = self.expr(st.target, s, out)
            out.next = self._ev(st, s, out)
        elif isinstance(st, ast.AnnAssign):
            s = self.expr(st.value, states, out)
            if st.value is not None:
                s = self.expr(st.target, s, out)
            out.next = self._ev(st, s, out)
        elif isinstance(st, ast.Match):
            s = self.expr(st.subject, states, out)
            rest = set(s)
            for c in st.cases:
                m = self._ev(c.pattern, s, out)
                if c.guard is not None:
                    m = self._refine_set(c.guard, self.expr(c.guard, m, out), True)
                out.absorb(self.block(c.body, m))
            out.next |= rest
        else:
            s = states
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr):
                    s = self.expr(ch, s, out)
            out.next = self._ev(st, s, out)
        return out

    def _ev_iter(self, st, states, out):
        return states

    def _loop_end(self, st, states):
        return states

    def _aug_read(self, st, states, out):
        return states

    def run(self, func_node, init):
        body = func_node.body
        if isinstance(func_node, ast.Lambda):
            out = Exits()
            out.next = self.expr(func_node.body, set(init), out)
            return out
        return self.block(body, set(init))
