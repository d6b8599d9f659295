"""C15: readers neither lose nor duplicate sentences."""
import ast

from ..flow import Flow
from ..project import own_nodes

EXPLANATION = ('Typestate analysis of every function of every reader: each line taken from the input must be used before the '
               'next one is taken, collected lines must be parsed before they are dropped, a missing sentence may be reported '
               'only after the end of the input was seen, and each sentence obtained must be placed exactly once (in a bundle, '
               'a result or the buffer for the next document) unless a limit given by the user excludes it. A buffered '
               'sentence must be placed before any later one.')
TECHNIQUE = 'typestate analysis over all paths of the reader functions'

LIMITS = ('max_docs', 'sent_id_filter')


def mentions(e, names):
    return any(isinstance(n, ast.Attribute) and n.attr in names or isinstance(n, ast.Name) and n.id in names
               for n in ast.walk(e))


def stripped(test):
    """line.strip() == '' as line == ''."""
    a = test.left
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ('strip', 'rstrip', 'lstrip') and \
            isinstance(a.func.value, ast.Name):
        return ast.copy_location(ast.Compare(a.func.value, test.ops, test.comparators), test)
    return test


class Model:
    """What the functions of the readers return."""

    def __init__(self, p, readers):
        self.p = p
        self.by_name = {}
        for c in readers:
            for f in p.functions.values():
                if f.cls is c:
                    self.by_name.setdefault(f.name, []).append(f)
        self.makers = {'read_tree', 'filtered_read_tree', 'read_tree_from_lines'}
        self.lists = {'read_trees'}
        self.may_none = {}
        changed = True
        while changed:
            changed = False
            for name, fs in self.by_name.items():
                for f in fs:
                    trees, lists = self.returns(f)
                    if trees and name not in self.makers:
                        self.makers.add(name)
                        changed = True
                    if lists and name not in self.lists:
                        self.lists.add(name)
                        changed = True

    def returns(self, f):
        """Does the function return a sentence obtained from another reader function / a list of them?"""
        one = many = False
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and self.maker(n.value):
                one = True
        return one, many

    def maker(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in self.makers

    @staticmethod
    def strict(e):
        """Is this a call of a function that returns None only at the end of the input?

        (This is what the rule early-end checks in these functions.)
        """
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr != 'read_tree_from_lines'

    def lister(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in self.lists


def is_handle(e, alias):
    return isinstance(e, ast.Attribute) and e.attr == 'filehandle' or isinstance(e, ast.Name) and e.id in alias


class Reading(Flow):
    """State: frozenset of (kind, name, status)."""

    def __init__(self, f, model, entry):
        self.f, self.m, self.entry = f, model, entry
        self.bad, self.unknown = {}, []
        # readers of sentences have to read all of the file, the others add something to existing sentences
        self.whole = any(model.maker(n) or model.lister(n) for n in own_nodes(f.node))
        self.seen = {'sentences': 0, 'lines': 0, 'collected': 0, 'ends': 0, 'files': 0, 'lists': 0, 'finished': 0}
        self.alias = set()
        self.lists = set()          # variables holding lists of sentences
        self.roles = {}
        self.buffers = set()
        tokens = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
                if isinstance(t, ast.Name):
                    self.roles[t] = 'assign'
                    if isinstance(v, ast.Attribute) and v.attr == 'filehandle' or isinstance(v, ast.Call) and \
                            isinstance(v.func, ast.Attribute) and v.func.attr == 'next_filehandle':
                        self.alias.add(t.id)
                    if model.lister(v):
                        self.lists.add(t.id)
                    if model.maker(v):
                        tokens.add(t.id)
        for n in own_nodes(f.node):
            # a variable that is sometimes something else does not tell anything about the input
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
                self.alias.discard(n.targets[0].id)
        for n in own_nodes(f.node):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                if is_handle(n.iter, self.alias) or f.name == 'read_tree_from_lines' and isinstance(n.iter, ast.Name) and \
                        n.iter.id in [a.arg for a in f.node.args.args]:
                    self.roles[n.target] = 'line'
                elif isinstance(n.iter, ast.Name) and n.iter.id in self.lists or model.lister(n.iter):
                    self.roles[n.target] = 'sentence'
                    tokens.add(n.target.id)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                    isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == 'self' and \
                    isinstance(n.value, ast.Name) and n.value.id in tokens:
                self.buffers.add(n.targets[0].attr)
        self.tokens = tokens
        self.in_test = set()
        for n in own_nodes(f.node):
            tests = [n.test] if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) else []
            for t in tests:
                self.in_test |= set(ast.walk(t))
        for n in own_nodes(f.node):
            if isinstance(n, ast.Compare):
                self.in_test |= set(ast.walk(n))
            # messages are no use of a line
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == 'logging':
                self.in_test |= set(ast.walk(n))

    def may_raise(self, node):
        return isinstance(node, ast.Raise)

    # ---- facts
    @staticmethod
    def get(s, kind, name):
        return next((x[2] for x in s if x[0] == kind and x[1] == name), None)

    @staticmethod
    def put(s, kind, name, status):
        s = frozenset(x for x in s if not (x[0] == kind and x[1] == name))
        return s if status is None else s | {(kind, name, status)}

    def report(self, rule, node, text):
        self.bad.setdefault((rule, text), node)

    def lose(self, s, name, node, how):
        if self.get(s, 'tok', name) in ('held', 'maybe'):
            self.report('sentence-lost', node, f'the sentence in {name} is {how} without having been placed anywhere')
        if self.get(s, 'line', name) == 'held':
            self.report('line-lost', node, f'the line in {name} is {how} without having been used')
        if self.get(s, 'list', name):
            self.report('sentence-lost', node, f'sentences of the list {name} are {how} without having been placed anywhere')
        if self.get(s, 'pend', name):
            self.report('lines-lost', node, f'the lines collected in {name} are {how} without having been parsed')

    def forget(self, s, name):
        return frozenset(x for x in s if x[1] != name or x[0] in ('eof', 'buf'))

    def start(self):
        return frozenset(('buf', b, 'unknown') for b in self.buffers)

    # ---- events
    def event(self, n, s):
        if isinstance(n, ast.Name):
            return self.name(n, s)
        if isinstance(n, ast.Call):
            return self.call(n, s)
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            return self.assign(n, n.targets[0], n.value, s)
        if isinstance(n, ast.Return):
            return self.ret(n, s)
        if isinstance(n, (ast.Yield,)) and isinstance(n.value, ast.Name):
            return self.place(s, n.value.id, n)
        if isinstance(n, ast.Raise):
            return s
        return s

    def name(self, n, s):
        if isinstance(n.ctx, ast.Store):
            role = self.roles.get(n)
            if role == 'assign':
                return s
            self.lose(s, n.id, n, 'replaced')
            s = self.forget(s, n.id)
            if role == 'line':
                self.seen['lines'] += 1
                s = self.put(s, 'blank', '', None)
                return self.put(s, 'line', n.id, 'held')
            if role == 'sentence':
                self.seen['sentences'] += 1
                return self.put(self.put(s, 'tok', n.id, 'maybe'), 'null', n.id, 'maybe')
            return s
        if isinstance(n.ctx, ast.Load) and self.get(s, 'list', n.id) == 'held' and n in self.hand_over:
            s = self.put(s, 'list', n.id, None)
        if isinstance(n.ctx, ast.Load) and n not in self.in_test:
            if self.get(s, 'line', n.id) == 'held' and not self.rebinds(n):
                s = self.put(s, 'line', n.id, None)
            if self.get(s, 'pend', n.id) and not self.is_append_base(n):
                s = self.put(s, 'pend', n.id, None)
        return s

    def rebinds(self, n):
        """Is this the use in `line = line.rstrip()`?"""
        return n in self._rebind

    def is_append_base(self, n):
        return n in self._append

    def prepare(self):
        self._rebind, self._append, self.hand_over = set(), set(), set()
        for x in own_nodes(self.f.node):
            v = x.value if isinstance(x, (ast.Return, ast.Assign, ast.Yield)) else None
            for y in (x.args if isinstance(x, ast.Call) else [v]):
                while isinstance(y, ast.Subscript):
                    y = y.value
                if isinstance(y, ast.Name) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len'):
                    self.hand_over.add(y)
        for x in own_nodes(self.f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                    isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
                    x.value.func.attr in ('rstrip', 'strip', 'lstrip', 'replace', 'decode') and \
                    isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == x.targets[0].id:
                self._rebind.add(x.value.func.value)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'clear', 'extend'):
                self._append.add(x.func.value)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len':
                self._append |= set(x.args)

    def call(self, n, s):
        if isinstance(n.func, ast.Attribute):
            a, base = n.func.attr, n.func.value
            if a == 'append' and isinstance(base, ast.Name) and len(n.args) == 1:
                x = n.args[0]
                names = {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                if self.line_names & names:
                    self.seen['collected'] += 1
                    return self.put(self.put(s, 'pend', base.id, 'yes'), 'set', base.id, 'yes')
            if a == 'clear' and isinstance(base, ast.Name):
                self.lose(s, base.id, n, 'cleared')
                return self.forget(s, base.id)
            if a == 'next_filehandle':
                self.seen['files'] += 1
                if self.get(s, 'eof', '') is None and self.whole:
                    self.report('file-left', n, 'the next file is opened although the end of the current one was not seen')
                return self.put(self.put(s, 'eof', '', None), 'opened', '', 'yes')
        if self.m.maker(n):
            for x in n.args:
                if isinstance(x, ast.Name) and self.get(s, 'set', x.id) and not (
                        self.get(s, 'blank', '') or self.get(s, 'eof', '')):
                    self.report('cut', n, f'the lines collected in {x.id} are parsed although their sentence may go on')
                if isinstance(x, ast.Name):
                    if self.get(s, 'parsed', x.id) == 'placed':
                        self.report('sentence-twice', n, f'the lines in {x.id} are parsed again after their sentence was placed')
                    s = self.put(self.put(s, 'set', x.id, None), 'parsed', x.id, 'yes')
        if self.m.lister(n):
            self.seen['lists'] += 1
            s = self.put(s, 'eof', '', 'yes')
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logging':
            return s
        for x in list(n.args) + [k.value for k in n.keywords]:
            if isinstance(x, ast.Name) and self.get(s, 'tok', x.id) is not None:
                if isinstance(n.func, ast.Name) and n.func.id in ('len', 'bool', 'str', 'repr', 'isinstance', 'print'):
                    continue
                s = self.place(s, x.id, n)
        return s

    def place(self, s, name, node):
        status = self.get(s, 'tok', name)
        if status is None:
            return s
        if status == 'placed':
            self.report('sentence-twice', node, f'the sentence in {name} is placed a second time')
        s = frozenset((k, n, 'placed') if k == 'parsed' else (k, n, st) for k, n, st in s)
        return self.put(s, 'tok', name, 'placed')

    def assign(self, n, t, v, s):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr in self.buffers:
            old = self.get(s, 'buf', t.attr)
            if isinstance(v, ast.Name) and self.get(s, 'tok', v.id) is not None:
                if old in ('unknown', 'full', 'late'):
                    self.report('buffer-lost', n, f'self.{t.attr} is overwritten while it may hold a sentence')
                s = self.put(s, 'buf', t.attr, 'stored')
                return self.place(s, v.id, n)
            if isinstance(v, ast.Constant) and v.value is None:
                if old in ('unknown', 'full', 'late'):
                    self.report('buffer-lost', n, f'self.{t.attr} is cleared while it may hold a sentence')
                return self.put(s, 'buf', t.attr, 'empty')
            return s
        if isinstance(t, ast.Attribute) and t.attr == 'finished':
            self.finish(n, v, s)
            return s
        if not isinstance(t, ast.Name):
            for x in ast.walk(v):
                if isinstance(x, ast.Name) and self.get(s, 'tok', x.id) is not None and isinstance(v, (ast.Name, ast.List, ast.Tuple)):
                    s = self.place(s, x.id, n)
            return s
        same = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.value in self._rebind
        if not same:
            self.lose(s, t.id, n, 'replaced')
            s = self.forget(s, t.id)
        if self.m.lister(v):
            return self.put(s, 'list', t.id, 'held')
        if self.m.maker(v):
            self.seen['sentences'] += 1
            s = self.put(self.put(s, 'tok', t.id, 'maybe'), 'null', t.id, 'maybe')
            if self.m.strict(v):
                s = self.put(s, 'strict', t.id, 'yes')
            for b in self.buffers:
                if self.get(s, 'buf', b) in ('full', 'unknown'):
                    s = self.put(s, 'buf', b, 'late')
            return s
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' and v.attr in self.buffers:
            was = self.get(s, 'buf', v.attr)
            if was == 'late':
                self.report('buffer-order', n, f'self.{v.attr} is placed after a sentence that was read later')
            s = self.put(s, 'buf', v.attr, 'moved')
            return self.put(s, 'tok', t.id, 'held')
        if isinstance(v, ast.Name) and self.get(s, 'tok', v.id) is not None:
            s = self.put(s, 'tok', t.id, self.get(s, 'tok', v.id))
            return self.put(s, 'tok', v.id, 'placed')
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'readline' and \
                is_handle(v.func.value, self.alias):
            self.seen['lines'] += 1
            s = self.put(s, 'blank', '', None)
            return self.put(s, 'line', t.id, 'held')
        if isinstance(v, ast.Constant) and v.value is None:
            s = self.put(s, 'null', t.id, 'none')
        return s

    def finish(self, n, v, s):
        self.seen['finished'] += 1
        if isinstance(v, ast.Constant) and v.value is False or self.get(s, 'limit', ''):
            return
        if isinstance(v, ast.Constant) and v.value is True:
            if not (self.get(s, 'opened', '') and self.get(s, 'eof', '') == 'none'):
                self.report('file-left', n, 'the reader is finished although it was not seen that there are no more files')
            return
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) and isinstance(v.operand, ast.Call) and \
                isinstance(v.operand.func, ast.Attribute) and v.operand.func.attr == 'has_next_file':
            if self.get(s, 'eof', '') is None and self.whole:
                self.report('file-left', n, 'the reader is finished although the end of the current file was not seen')
            return
        self.unknown.append(f'line {n.lineno}: what finished becomes')

    def ret(self, n, s):
        v = n.value
        if isinstance(v, ast.Name):
            if self.get(s, 'tok', v.id) is not None:
                s = self.place(s, v.id, n)
            if self.get(s, 'strict', v.id) is None:
                self.none_returned(n, s, self.get(s, 'null', v.id))
        elif v is None or isinstance(v, ast.Constant) and v.value is None:
            self.none_returned(n, s, 'none')
        elif self.m.maker(v):
            self.seen['sentences'] += 1
            if not self.m.strict(v):
                self.none_returned(n, s, 'maybe')
        self.leave(s, n)
        return s

    def none_returned(self, n, s, null):
        if self.entry != 'tree' or null not in ('none', 'maybe'):
            return
        self.seen['ends'] += 1
        if self.get(s, 'eof', '') is None:
            self.report('early-end', n, 'no sentence may be returned here although the end of the input was not seen')

    def leave(self, s, node):
        for kind, name, status in sorted(s):
            if kind == 'tok' and status in ('held', 'maybe'):
                self.lose(s, name, node, 'left behind')
            if kind in ('line', 'pend', 'list') and self.get(s, 'limit', '') is None:
                self.lose(s, name, node, 'left behind')
            if kind == 'buf' and status == 'late':
                self.report('buffer-order', node, f'the sentence in self.{name} stays there although later sentences were read')
            if kind == 'buf' and status == 'moved':
                self.report('sentence-twice', node, f'self.{name} still holds the sentence that was placed')

    def _ev_iter(self, st, states, out):
        x, part = st.iter, False
        while isinstance(x, ast.Subscript):
            x, part = x.value, True
        if isinstance(x, ast.Name) and x.id in self.lists:
            if part:
                self.report('sentence-lost', st, f'only some sentences of the list {x.id} are taken')
            return {self.put(s, 'list', x.id, 'some') for s in states}
        return states

    def _loop_end(self, st, states):
        if isinstance(st.iter, ast.Name) and st.iter.id in self.lists:
            states = {self.put(s, 'list', st.iter.id, None) for s in states}
        if is_handle(st.iter, self.alias):
            out = set()
            for s in states:
                s = self.put(s, 'eof', '', 'yes')
                if isinstance(st.target, ast.Name):
                    # the variable keeps the last line
                    self.lose(s, st.target.id, st, 'dropped at the end of the input')
                    s = self.put(s, 'line', st.target.id, None)
                out.add(s)
            return out
        if isinstance(st.target, ast.Name) and self.roles.get(st.target) == 'sentence':
            out = set()
            for s in states:
                self.lose(s, st.target.id, st, 'left behind')
                out.add(self.forget(s, st.target.id))
            return out
        return states

    # ---- branches
    def refine(self, test, s, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, s, not truth)
        if isinstance(test, ast.Name):
            return self.nullness(s, test.id, not truth)
        if isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and test.value.id == 'self' and \
                test.attr in self.buffers and self.get(s, 'buf', test.attr) == 'unknown':
            return self.put(s, 'buf', test.attr, 'full' if truth else 'empty')
        if is_handle(test, self.alias) and not truth:
            return self.put(s, 'eof', '', 'none')
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            test = stripped(test)
            return self.compare(test, s, truth)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and isinstance(test.func.value, ast.Name) and \
                self.get(s, 'line', test.func.value.id) is not None and \
                test.func.attr in ('strip', 'rstrip', 'lstrip', 'isspace') and truth == (test.func.attr == 'isspace'):
            # nothing but white space
            return self.put(self.put(s, 'line', test.func.value.id, None), 'blank', '', 'yes')
        if isinstance(test, ast.Call) and mentions(test, LIMITS):
            # a filter of the user that is not passed
            return s if truth else self.excuse(s)
        return s

    def excuse(self, s):
        s = self.put(s, 'limit', '', 'yes')
        return frozenset((k, n, 'excused') if k == 'tok' and st in ('held', 'maybe') else (k, n, st) for k, n, st in s)

    def compare(self, test, s, truth):
        op, a, b = type(test.ops[0]), test.left, test.comparators[0]
        if op in (ast.NotEq, ast.IsNot, ast.NotIn):
            op = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[op]
            truth = not truth
        none = isinstance(b, ast.Constant) and b.value is None
        if op in (ast.Is, ast.Eq) and none:
            if is_handle(a, self.alias):
                return self.put(s, 'eof', '', 'none') if truth else s
            if isinstance(a, ast.Name):
                return self.nullness(s, a.id, truth)
            if isinstance(a, ast.Attribute) and a.attr in self.buffers and self.get(s, 'buf', a.attr) == 'unknown':
                return self.put(s, 'buf', a.attr, 'empty' if truth else 'full')
            if isinstance(a, ast.Call) and mentions(a, LIMITS):
                return self.excuse(s) if truth else s
            return s
        if op is ast.Eq and isinstance(b, ast.Constant) and type(b.value) is int and isinstance(a, ast.Call) and \
                isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and isinstance(a.args[0], ast.Name):
            if not truth:
                return self.put(s, 'filled', '', 'yes') if test in self.in_loop else s
            # a sentence is empty although something was collected: not on any real path
            return None if self.get(s, 'filled', '') and test not in self.in_loop else s
        if op in (ast.Gt, ast.GtE, ast.Eq, ast.Lt, ast.LtE) and mentions(test, LIMITS):
            left = mentions(a, LIMITS)
            over = (op in (ast.Lt, ast.LtE)) if left else (op in (ast.Gt, ast.GtE))
            if op is ast.Eq or over:
                return self.excuse(s) if truth else s
            return self.excuse(s) if not truth else s
        if isinstance(a, ast.Name) and self.get(s, 'line', a.id) is not None and truth:
            if op is ast.Eq and isinstance(b, ast.Constant) and b.value in ('', b''):
                # either the end of the input or, once stripped, an empty line
                s = self.put(self.put(s, 'line', a.id, None), 'blank', '', 'yes')
                return self.put(s, 'eof', '', 'yes') if a.id in self.readline_vars else s
            if isinstance(b, ast.Constant) and isinstance(b.value, str) and not b.value.strip():
                return self.put(self.put(s, 'line', a.id, None), 'blank', '', 'yes')
            if op is ast.In and isinstance(b, (ast.Set, ast.Tuple, ast.List)) and all(
                    isinstance(x, ast.Constant) and isinstance(x.value, str) and not x.value.strip() for x in b.elts):
                return self.put(self.put(s, 'line', a.id, None), 'blank', '', 'yes')
        return s

    def nullness(self, s, name, none):
        if name in self.lists:
            # the list of all sentences is read at once
            return self.put(self.put(s, 'eof', '', 'yes'), 'list', name, None) if none else s
        if self.get(s, 'line', name) == 'held' and none:
            s = self.put(self.put(s, 'line', name, None), 'blank', '', 'yes')
            return self.put(s, 'eof', '', 'yes') if name in self.readline_vars else s
        if self.get(s, 'pend', name) and none:
            return None
        st = self.get(s, 'tok', name)
        if st in ('maybe', 'held', 'excused', 'placed') and self.get(s, 'null', name) is not None:
            if none:
                if self.get(s, 'null', name) == 'some':
                    return None
                s = self.put(s, 'null', name, 'none')
                if self.get(s, 'strict', name):
                    s = self.put(s, 'eof', '', 'yes')
                return self.put(s, 'tok', name, None) if st == 'maybe' else s
            if self.get(s, 'null', name) == 'none':
                return None
            s = self.put(s, 'null', name, 'some')
            return self.put(s, 'tok', name, 'held') if st == 'maybe' else s
        return s

    def go(self):
        self.prepare()
        self.in_loop = set()
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.For) and is_handle(n.iter, self.alias) or isinstance(n, ast.While):
                self.in_loop |= set(ast.walk(n))
        self.readline_vars, stripped = set(), set()
        self.line_names = {t.id for t, r in self.roles.items() if r == 'line'}
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'readline':
                    self.readline_vars.add(n.targets[0].id)
                    self.line_names.add(n.targets[0].id)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.value in self._rebind:
                    stripped.add(n.targets[0].id)
        self.readline_vars -= stripped
        ex = self.run(self.f.node, {self.start()})
        for s in ex.next:
            if self.entry == 'tree':
                self.none_returned(self.f.node, s, 'none')
            self.leave(s, self.f.node)


def run(ctx):
    ctx.rule('line-lost', 'a line taken from the input is used, or is empty, before the next line is taken')
    ctx.rule('lines-lost', 'collected lines are parsed before they are dropped')
    ctx.rule('early-end', 'a missing sentence (None) is returned only after the end of the input was seen')
    ctx.rule('sentence-lost', 'a sentence obtained from the input is placed, unless a limit of the user excludes it')
    ctx.rule('sentence-twice', 'no sentence is placed twice')
    ctx.rule('cut', 'collected lines are parsed only at an empty line or at the end of the input')
    ctx.rule('file-left', 'a file is left, and reading finished, only when the end of the file, or of the files, was seen')
    ctx.rule('buffer-lost', 'the buffer for the next document is not overwritten or cleared while it may hold a sentence')
    ctx.rule('buffer-order', 'a buffered sentence is placed before sentences read later')
    p = ctx.p
    base = p.classes.get('udapi.core.basereader.BaseReader')
    if base is None:
        ctx.undet('no BaseReader class')
        ctx.floor('functions', 1)
        return
    readers = [base] + [c for c in base.all_subs() if '/tests/' not in c.module.path]
    ctx.count('readers', len(readers))
    model = Model(p, readers)
    for c in readers:
        for f in p.functions.values():
            if f.cls is not c:
                continue
            interesting = any(
                isinstance(n, ast.Attribute) and n.attr in ('filehandle', 'readline', 'finished') or f.name == 'read_tree_from_lines' or model.maker(n) or model.lister(n)
                for n in own_nodes(f.node))
            if not interesting or f.name in ('filehandle', 'next_filehandle', '__init__'):
                continue
            abstract = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if len(abstract) == 1 and isinstance(abstract[0], ast.Raise):
                continue
            r = Reading(f, model, 'tree' if f.name in model.makers and f.name != 'read_tree_from_lines' else None)
            try:
                r.go()
            except OverflowError as e:
                ctx.undet(f'{f.qual}: {e}')
                continue
            ctx.count('functions')
            for k, v in r.seen.items():
                if v:
                    ctx.count(k + ' events', v)
            for (rule, text), node in r.bad.items():
                ctx.find(rule, f.module.path, node.lineno, f.qual, text)
            for u in r.unknown:
                ctx.undet(f'{f.qual}: {u}')
            if not r.bad:
                ctx.ok(f'{f.qual}: nothing lost')
    ctx.floor('functions', 8)
    ctx.floor('sentences events', 4)
    ctx.floor('lines events', 4)
