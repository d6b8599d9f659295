"""C16: no path of the library refers to a name, member or attribute that does not exist, reads a local variable
that was never assigned, or calls a library function with arguments its signature rejects."""
import ast

from ..flow import Flow
from ..project import own_nodes
from ..types import ANY, NONE, PYDIR, Types
from ..util import BUILTINS, Scopes, where

EXPLANATION = ('Whole-program name resolution, inclusion-based type inference and definite-assignment dataflow: every '
               'name, every member of a library module, every attribute of an object whose possible classes are all '
               'known, every local variable read and every resolvable call is checked against what exists.')
TECHNIQUE = 'name resolution, whole-program type inference, definite-assignment dataflow, signature checking'


MUTATORS = {'append', 'add', 'pop', 'remove', 'discard', 'clear', 'update', 'extend', 'insert', 'popleft', 'setdefault',
            'appendleft', 'popitem', 'sort', 'reverse'}


def atoms(t):
    if isinstance(t, ast.BoolOp):
        return [a for v in t.values for a in atoms(v)]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand)
    return [t]


def always_first(f, names):
    """Names assigned by a top-level statement of the body before any other mention: trivially fine."""
    out, seen = set(), set()
    for st in f.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and \
                st.targets[0].id not in seen and \
                not any(isinstance(x, ast.Name) and x.id == st.targets[0].id for x in ast.walk(st.value)):
            out.add(st.targets[0].id)
        seen |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
    if any(isinstance(x, ast.Delete) for x in own_nodes(f.node)):
        return set()
    return out


class Assign(Flow):
    """State: (definitely assigned local names, facts about pure conditions)."""
    loops_run = True
    max_states = 3000

    def __init__(self, names, report, body):
        self.names, self.report = names, report
        seen, self.repeated, self.kcache = set(), set(), {}
        for n in own_nodes(body):
            for t in ([n.test] if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) else
                      n.ifs if isinstance(n, ast.comprehension) else []):
                for a in atoms(t):
                    k = self.key(a)
                    if k is not None:
                        (self.repeated if k[0] in seen else seen).add(k[0])

    def key(self, test):
        if test not in self.kcache:
            self.kcache[test] = self._key(test)
        return self.kcache[test]

    def _key(self, test):
        """(normalised text of a condition worth remembering, polarity), or None."""
        for n in ast.walk(test):
            if isinstance(n, (ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda)):
                return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            k = self.key(test.operand)
            return k and (k[0], not k[1])
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ('len', 'bool') \
                and len(test.args) == 1:
            return self.key(test.args[0])
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, left, right = test.ops[0], test.left, test.comparators[0]
            if isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == 'len' and \
                    isinstance(right, ast.Constant):
                base = ast.unparse(left.args[0]) if left.args else None
                if isinstance(op, (ast.Gt, ast.NotEq)) and right.value == 0 or \
                        isinstance(op, ast.GtE) and right.value == 1:
                    return (base, True)
                if isinstance(op, ast.Eq) and right.value == 0 or isinstance(op, ast.Lt) and right.value == 1 or \
                        isinstance(op, ast.LtE) and right.value == 0:
                    return (base, False)
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            if type(op) in flip:
                t2 = ast.Compare(left=left, ops=[flip[type(op)]()], comparators=[right])
                return (ast.unparse(t2), False)
        return (ast.unparse(test), True)

    def refine(self, test, s, truth):
        names, facts = s
        k = self.key(test)
        if k is None:
            return s
        k, pol = k
        if k not in self.repeated:
            return s
        val = truth == pol
        d = dict(facts)
        if k in d:
            return s if d[k] == val else None
        if len(facts) < 12:
            return (names, facts | {(k, val)})
        return s

    def event(self, node, s):
        names, facts = s
        if isinstance(node, ast.Name) and node.id in self.names:
            if isinstance(node.ctx, ast.Load):
                if node.id not in names:
                    self.report(node)
                return s
            if isinstance(node.ctx, ast.Store):
                return (names | {node.id}, self.drop(facts, node.id))
            return (names - {node.id}, self.drop(facts, node.id))
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return (names | {node.name}, facts)
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            return (names | {(a.asname or a.name.split('.')[0]) for a in node.names}, facts)
        if isinstance(node, ast.ExceptHandler) and node.name:
            return (names | {node.name}, facts)
        if isinstance(node, (ast.MatchAs, ast.MatchStar)) and node.name:
            return (names | {node.name}, facts)
        if isinstance(node, ast.Attribute) and not isinstance(node.ctx, ast.Load):
            return (names, frozenset(x for x in facts if '.' + node.attr not in x[0]))
        if isinstance(node, ast.Subscript) and not isinstance(node.ctx, ast.Load):
            return (names, frozenset(x for x in facts if '[' not in x[0]))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                isinstance(node.func.value, ast.Name):
            # a method may change its receiver: forget facts about the receiver's contents
            r = node.func.value.id
            if r != 'self' and node.func.attr in MUTATORS:
                return (names, self.drop(facts, r))
        return s

    def stmt(self, st, states):
        out = super().stmt(st, states)
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            # assume a finished loop has taken every branch of its body
            got = frozenset(x.id for b in st.body for x in ast.walk(b)
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) & self.names
            out.next = {(n | got, f) for n, f in out.next}
        return out

    def drop(self, facts, name):
        import re
        return frozenset(f for f in facts if not re.search(r'\b' + re.escape(name) + r'\b', f[0]))

    def _aug_read(self, st, states, out):
        if isinstance(st.target, ast.Name) and st.target.id in self.names:
            for s in states:
                if st.target.id not in s[0]:
                    self.report(st.target)
        return states

    def may_raise(self, node):
        return isinstance(node, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Raise, ast.Assert))


def binding_names(f, scopes):
    """Local names whose every binding and use the flow engine sees (no comprehension-only names)."""
    comp = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.comprehension):
            comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    inner = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Lambda):
            inner |= {a.arg for a in n.args.args}
    return scopes.locals_of(f) - comp - inner


def comp_scoped(m, p, node):
    """Names bound by comprehensions or lambdas around a node."""
    par = p.parents(m)
    out = set()
    n = node
    while n is not None:
        n2 = par.get(n)
        if isinstance(n2, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n2.generators:
                out |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        elif isinstance(n2, ast.Lambda):
            a = n2.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            out |= {x.arg for x in (a.vararg, a.kwarg) if x}
        elif isinstance(n2, (ast.FunctionDef, ast.ClassDef)):
            break
        n = n2
    return out


def check_names(ctx, scopes):
    p = ctx.p
    for m in p.modules.values():
        star = '*' in m.names and any(not any(b == x or b.startswith(x + '.') for x in p.modules)
                                      for b in m.names['*'][1])
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
                continue
            ctx.count('names resolved')
            f = p.enclosing(m, n)
            if scopes.owner_of_name(f, n.id) is not None or n.id in BUILTINS or n.id in comp_scoped(m, p, n):
                continue
            if p.resolve_in_module(m, n.id) is not None or n.id in m.names or star:
                continue
            # names bound in a class body
            par, x, ok = p.parents(m), n, False
            while x is not None:
                x = par.get(x)
                if isinstance(x, ast.ClassDef):
                    ok = any(isinstance(y, ast.Name) and y.id == n.id and isinstance(y.ctx, ast.Store)
                             for st in x.body for y in ast.walk(st)) or \
                        any(getattr(st, 'name', None) == n.id for st in x.body)
                    break
            if ok:
                continue
            if any(isinstance(g, (ast.Global,)) and n.id in g.names for g in ast.walk(m.tree)):
                continue
            ctx.find('undefined-name', m.path, n.lineno, f'{where(m, f)} {n.id}', f'name {n.id} is not defined')


def check_unbound(ctx, scopes):
    p = ctx.p
    for f in p.functions.values():
        names = binding_names(f, scopes)
        a = f.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        if not names - params:
            continue
        hits = {}

        def report(node, hits=hits):
            hits.setdefault(node.id, node)
        fl = Assign(names - params - always_first(f, names), report, f.node)
        try:
            fl.run(f.node, {(frozenset(params), frozenset())})
        except (OverflowError, RecursionError):
            # without remembering conditions there are few states; what remains open is not reported
            hits.clear()
            fl.repeated = set()
            fl.run(f.node, {(frozenset(params), frozenset())})
            for n in hits:
                ctx.undet(f'{f.qual}: {n} (too many paths)')
            hits.clear()
        ctx.count('functions checked for definite assignment')
        if not hits:
            ctx.ok()
        for name, node in hits.items():
            ctx.find('unbound-local', f.path, node.lineno, f'{where(f.module, f)} {name}',
                     f'local variable {name} may be read before it is assigned')


# ---------------------------------------------------------------- attributes
def universe(t):
    """Every attribute name that exists on some class, module or builtin type of the program."""
    names = set()
    for ds in PYDIR.values():
        names |= set(ds)
    for c in t.p.classes.values():
        names |= set(c.methods) | set(c.getters) | set(c.setters) | set(c.class_attrs) | set(c.slots or ())
        for b in c.external_bases():
            names |= set(ext_dir(str(b)) or ())
    for (_, a) in t.attrs:
        names.add(a)
    import argparse
    import collections
    import io
    import logging
    import os
    import random
    import re
    import sys
    import threading
    import urllib.request
    import xml.etree.ElementTree
    for ns in (argparse, collections, io, logging, os, os.path, random, re, sys, threading, urllib.request,
               xml.etree.ElementTree):
        names |= set(dir(ns))
        for x in list(vars(ns).values()):
            if isinstance(x, type):
                names |= set(dir(x))
    return names


def ext_dir(name):
    """Members of a standard-library class, or None when it is not known."""
    import builtins
    import collections.abc
    base = name.rsplit('.', 1)[-1]
    for ns in (builtins, collections.abc):
        if hasattr(ns, base) and (name in (base, 'builtins.' + base, 'collections.abc.' + base, 'collections.' + base)):
            return dir(getattr(ns, base))
    return None


def has_attr(t, v, name, store=False):
    """True/False/None(unknown): does a value of this abstract type have the attribute?"""
    p = t.p
    k = v[0]
    if k in ('I', 'i'):
        if name.startswith('__'):
            return True
        fam = t.family(v)
        if not fam:
            return None
        for c in fam:
            if name in c.methods or name in c.getters or name in c.setters or name in c.class_attrs \
                    or name in (c.slots or ()) or (c.qual, name) in t.attrs:
                return True
            if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                return None
        for c in fam:
            if any(dec for dec in c.node.decorator_list if 'total_ordering' not in ast.dump(dec)):
                return None
            for b in c.bases:
                if isinstance(b, str):
                    d = ext_dir(b)
                    if d is None:
                        return None
                    if name in d:
                        return True
        if dynamic_setattr(t, fam):
            return None
        return False
    if k in ('o', 'k'):
        return name in PYDIR[v[1]]
    if k == 'm':
        m = p.modules[v[1]]
        if p.resolve_in_module(m, name) is not None or name in m.names or name.startswith('__') or '*' in m.names:
            return True
        return (v[1] + '.' + name) in p.modules or (v[1] + '.' + name) in p.namespaces
    if k == 'x' and not v[1].startswith('builtins.'):
        return stdlib_has(v[1], name)
    if k == 'C':
        c = p.classes[v[1]]
        if name.startswith('__') or c.lookup(name) or any((b.qual, name) in t.attrs for b in c.mro()):
            return True
        return None if c.external_bases() else False
    return None


def stdlib_has(dotted, name):
    """Does a standard-library module (reached through an import) have this member?  None when unknown."""
    import importlib
    import sys
    if dotted.split('.')[0] not in sys.stdlib_module_names or dotted.split('.')[0] in ('antigravity', 'this'):
        return None
    try:
        mod = importlib.import_module(dotted)
    except Exception:
        return None
    if hasattr(mod, name):
        return True
    try:
        importlib.import_module(dotted + '.' + name)
        return True
    except Exception:
        return False


def third_party(m, p):
    """Does the module import anything that is neither the library nor the standard library?"""
    import sys
    for kind, obj in m.names.values():
        if kind == 'import' and obj.split('.')[0] not in sys.stdlib_module_names | {'udapi'}:
            return True
    return any(isinstance(n, (ast.Import, ast.ImportFrom)) and
               (n.module or '' if isinstance(n, ast.ImportFrom) else n.names[0].name).split('.')[0]
               not in sys.stdlib_module_names | {'udapi', ''} for n in ast.walk(m.tree))


def dynamic_setattr(t, fam):
    """Do the classes store attributes under computed names (setattr(self, x, ..), self.__dict__)?"""
    cache = t.__dict__.setdefault('_dyn', {})
    for c in fam:
        if c.qual not in cache:
            cache[c.qual] = any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr'
                and not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant))
                or isinstance(n, ast.Attribute) and n.attr == '__dict__'
                for n in ast.walk(c.node))
        if cache[c.qual]:
            return True
    return False


def guarded(m, p, node):
    """Inside try/except AttributeError, or behind hasattr/isinstance on the same receiver."""
    par = p.parents(m)
    n = node
    recv = ast.unparse(node.value)
    while n is not None:
        q = par.get(n)
        if isinstance(q, ast.Try) and n in q.body:
            for h in q.handlers:
                if h.type is None or any(x in ast.unparse(h.type) for x in ('AttributeError', 'Exception')):
                    return True
        if isinstance(q, (ast.If, ast.IfExp, ast.While)) and n is not q.test and \
                any(w in ast.unparse(q.test) for w in ('hasattr', 'getattr')) and recv in ast.unparse(q.test):
            return True
        if isinstance(q, ast.BoolOp) and any('hasattr' in ast.unparse(v) for v in q.values):
            return True
        n = q
    return False


def check_attributes(ctx, t):
    p = ctx.p
    uni = universe(t)
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute):
                continue
            f = p.enclosing(m, n)
            if n.attr in ('setter', 'deleter', 'getter') and any(
                    n in getattr(q, 'decorator_list', ()) for q in [p.parents(m).get(n)]):
                continue
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                continue  # decided with the calls
            vals = t.of(m, f, n.value)
            live = {v for v in vals if v != NONE}
            ctx.count('attribute references')
            if isinstance(n.ctx, ast.Load):
                if not live:
                    continue
                rs = {has_attr(t, v, n.attr) for v in live}
                if rs == {True}:
                    ctx.ok()
                    continue
                if True in rs:
                    ctx.ok()
                    continue
                if rs == {False}:
                    if guarded(m, p, n):
                        continue
                    kinds = sorted({str(v[1]) for v in live})[:3]
                    ctx.find('no-attribute', m.path, n.lineno, f'{where(m, f)} .{n.attr}',
                             f'{ast.unparse(n)[:60]}: no attribute {n.attr} on {", ".join(kinds)}')
                elif n.attr not in uni and not third_party(m, p) and any(v[0] in ('I', 'i') and has_attr(t, v, n.attr) is False for v in live) \
                        and not guarded(m, p, n):
                    kinds = sorted({str(v[1]) for v in live if v[0] in ('I', 'i')})[:3]
                    ctx.find('no-attribute', m.path, n.lineno, f'{where(m, f)} .{n.attr}',
                             f'{ast.unparse(n)[:60]}: no attribute {n.attr} on {", ".join(kinds)} nor on any other '
                             'class')
                else:
                    ctx.undet(f'{m.path}:{n.lineno} {ast.unparse(n)[:50]}')
            else:
                if not live or not all(v[0] in ('I', 'i') for v in live):
                    continue
                if all(writable(t, v, n.attr) is False for v in live):
                    kinds = sorted({str(v[1]) for v in live})[:3]
                    ctx.find('no-slot', m.path, n.lineno, f'{where(m, f)} .{n.attr}=',
                             f'{ast.unparse(n)[:60]} cannot be assigned on {", ".join(kinds)}')
                else:
                    ctx.ok()


def writable(t, v, name):
    c = t.p.classes.get(v[1])
    if c is None:
        return None
    hits = t.lookups(v, name)
    if any(h[0] == 'prop' and h[2].find_setter(name) is not None for h in hits):
        return True
    fam = t.family(v)
    mros = [c] + [s for s in fam if s is not c and s in c.all_subs()] if v[0] == 'i' else [c]
    for k in mros:
        closed = all(b.slots is not None for b in k.mro()) and \
            not set(map(str, k.external_bases())) - {'object', 'collections.abc.MutableMapping'}
        if not closed:
            if not any(h[0] == 'prop' for h in hits):
                return True
            continue
        if any(name in (b.slots or ()) for b in k.mro()):
            return True
    return False


# ---------------------------------------------------------------- signatures
def accepts(fn, npos, kws, star, dstar, skip_self):
    """Error text when the call cannot bind, else None."""
    a = fn.node.args
    pos = a.posonlyargs + a.args
    if skip_self:
        pos = pos[1:]
    names = [x.arg for x in pos]
    if npos > len(names) and a.vararg is None:
        return f'takes {len(names)} positional arguments, {npos} given'
    ok = set(names) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in ok and a.kwarg is None:
            return f'has no parameter {k}'
        if k in names[:npos]:
            return f'parameter {k} given twice'
    if not star and not dstar:
        need = names[:len(names) - len(a.defaults)]
        missing = [n for i, n in enumerate(need) if i >= npos and n not in kws]
        missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
        if missing:
            return f'misses argument {missing[0]}'
    return None


def takers(p, name, kws):
    """Does some library function of that name accept all these keywords?"""
    for f in p.functions.values():
        if f.name == name:
            a = f.node.args
            if a.kwarg is not None or set(kws) <= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
                return True
    return False


def check_calls(ctx, t):
    p = ctx.p
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = p.enclosing(m, n)
            star = any(isinstance(a, ast.Starred) for a in n.args)
            dstar = any(k.arg is None for k in n.keywords)
            npos = sum(1 for a in n.args if not isinstance(a, ast.Starred))
            kws = [k.arg for k in n.keywords if k.arg]
            errs, oks = [], 0
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                    isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and f is not None:
                g = f
                while g is not None and g.cls is None:
                    g = g.parent
                fn = None
                if g is not None:
                    for b in g.cls.mro()[1:]:
                        if n.func.attr in b.methods:
                            fn = b.methods[n.func.attr]
                            break
                    if fn is None and not [b for b in g.cls.external_bases() if b != 'object'] and \
                            not n.func.attr.startswith('__') and g.cls.mro()[1:]:
                        ctx.find('no-attribute', m.path, n.lineno, f'{where(m, f)} super().{n.func.attr}',
                                 f'no base class of {g.cls.name} defines {n.func.attr}')
                targets = [(fn, True)] if fn is not None else []
            else:
                targets, unknown = [], False
                for v in t.of(m, f, n.func):
                    if v[0] == 'b':
                        targets.append((p.functions[v[1]], True))
                    elif v[0] == 'f':
                        targets.append((p.functions[v[1]], False))
                    elif v[0] == 'C':
                        init = p.classes[v[1]].find_method('__init__')
                        if init is not None:
                            targets.append((init, True))
                        elif not [b for b in p.classes[v[1]].external_bases() if b != 'object'] and (npos or kws):
                            errs.append(f'{v[1]} takes no arguments')
                        else:
                            oks += 1
                    elif v == ANY and kws and isinstance(n.func, ast.Attribute):
                        unknown = True
                    elif v != NONE:
                        oks += 1
                if unknown and not takers(p, n.func.attr, kws):
                    pass  # a keyword no function of that name in the library has: an unknown receiver is no excuse
                elif unknown:
                    oks += 1
            for fn, bound in targets:
                e = accepts(fn, npos, kws, star, dstar, bound)
                if e:
                    errs.append(f'{fn.qual} {e}')
                else:
                    oks += 1
            if not targets and not errs:
                continue
            ctx.count('calls checked against a signature')
            if errs and not oks:
                ctx.find('bad-call', m.path, n.lineno, f'{where(m, f)} {ast.unparse(n.func)[:60]}', errs[0])
            else:
                ctx.ok()


def run(ctx):
    ctx.rule('undefined-name', 'every name resolves to a binding in an enclosing scope, the module or the builtins')
    ctx.rule('unbound-local', 'on every path (loops run at least once) a local variable is assigned before it is read')
    ctx.rule('no-attribute', 'an attribute read exists on at least one of the possible classes of its receiver')
    ctx.rule('no-slot', 'an attribute store is possible on at least one of the possible classes of its receiver')
    ctx.rule('bad-call', 'a call binds to the signature of at least one of its possible targets')
    scopes = Scopes(ctx.p)
    check_names(ctx, scopes)
    check_unbound(ctx, scopes)
    t = Types(ctx.p)
    ctx.counts['type inference rounds'] = t.rounds
    check_attributes(ctx, t)
    check_calls(ctx, t)
    ctx.floor('names resolved', 10000)
    ctx.floor('attribute references', 5000)
    ctx.floor('calls checked against a signature', 800)
