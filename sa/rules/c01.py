"""C01: string view and mapping view of a dual dictionary always present the same content.

Abstract interpretation of every subclass of DualDict (and every class shaped like one) over heaps that track one
arbitrary-but-fixed name K, with all other entries summarised by a gap.  Starting from every way of constructing the
object, the reachable abstract states are closed under all public operations (breadth-first, canonicalised, finite);
in each state both views are evaluated and compared with a ghost map kept by the rule.
"""
import ast

from ..absint import (C, NONE, TRUE, FALSE, Interp, Obj, S, State, Undetermined, T, cat, gap, is_c, is_gap, is_raise,
                      mentions, oids, roots_of)

EXPLANATION = ('Abstract interpretation (heap with one tracked key, all other entries summarised) of every class that '
               'offers both a string and a mapping view; the set of reachable abstract states under all public '
               'operations is closed, and in every state the string view, item access, membership, iteration and '
               'length are compared with a ghost map.')
TECHNIQUE = 'abstract interpretation with heap summarisation, closed over all public operations'

K = S('key:k', 'str')
V0, V1, W = S('val:v0', 'str'), S('val:v1', 'str'), S('val:w', 'str')
ONE_NONEMPTY = {T('eq', *sorted((x, C('')), key=repr)): False for x in (V0, V1, W, K)}
ONE_NONEMPTY[T('eq', *sorted((K, C('_')), key=repr))] = False
NODE = ast.parse('x').body[0]
MAX_STATES = 60


def has(v, sym):
    return mentions(v, lambda t: t == sym)


class Ghost:
    """val: None (K absent), TRUE, or a value symbol; rest: None or the root name of the other entries."""
    def __init__(self, val=None, rest=None):
        self.val, self.rest = val, rest

    def key(self):
        return (self.val, self.rest)

    def empty(self):
        return self.val is None and self.rest is None

    def __repr__(self):
        v = 'absent' if self.val is None else 'present without value' if self.val == TRUE else 'present'
        return f'name {v}, other entries {"present" if self.rest else "none"}'


def subst_syms(v, fn):
    if not isinstance(v, tuple):
        return v
    r = fn(v)
    if r is not None:
        return r
    return tuple(subst_syms(x, fn) if isinstance(x, tuple) else x for x in v)


def canon_gap(g):
    rs = sorted(roots_of(g))
    name = '+'.join(r[4:] for r in rs) or 'none'
    return gap(name, S('gen:' + name, '?'), g[3])


def merge(items):
    out, gaps = [], {}
    for i in items:
        if is_gap(i):
            g = canon_gap(i)
            if g[1] in gaps:
                j = gaps[g[1]]
                out[j] = gap(g[1], g[2], g[3] or out[j][3])
            else:
                gaps[g[1]] = len(out)
                out.append(g)
        else:
            out.append(i)
    gs = sorted((x for x in out if is_gap(x)), key=repr)
    return tuple(gs + [x for x in out if not is_gap(x)])


class Explorer:
    def __init__(self, ctx, cls, interp):
        self.ctx, self.c, self.it = ctx, cls, interp
        self.sep = self.eq = None
        self.empty_form = None
        self.reported = set()
        self.path = cls.module.path

    # ------------------------------------------------------------------ states
    def canon(self, st, root, ghost):
        """Restrict the state to what `root` reaches, with canonical names."""
        names, order = {}, []
        todo = [root[1]]
        while todo:
            o = todo.pop(0)
            if o in names or o not in st.heap:
                continue
            names[o] = f'X{len(names)}'
            order.append(o)
            ob = st.heap[o]
            for v in list(ob.attrs.values()) + list(ob.items):
                todo.extend(oids(v))
        keep = ghost.val if ghost.val not in (None, TRUE) else None

        def fn(v):
            if v and v[0] == 'o' and len(v) == 2 and v[1] in names:
                return ('o', names[v[1]])
            if v and v[0] == 't' and v[1] in ('strmeth', 'meth', 'str'):
                if keep is not None and has(v, keep):
                    return V0
                if has(v, V0) or has(v, V1) or has(v, W):
                    return S('stale', 'str')
            if v and v[0] == 's':
                if v == keep:
                    return V0
                if v in (V0, V1, W):
                    return S('stale', 'str')
            if v and v[0] == 'join' and len(v) == 3:
                return ('join', v[1], tuple(subst_syms(i, fn) if not is_gap(i) else i for i in merge(v[2])))
            return None
        new = State()
        new.tainted = st.tainted
        for o in order:
            ob = st.heap[o].copy()
            ob.attrs = {k: subst_syms(v, fn) for k, v in ob.attrs.items()}
            items = merge(ob.items)
            ob.items = tuple(i if is_gap(i) else subst_syms(i, fn) for i in items)
            ob.fresh = True
            new.heap[names[o]] = ob
        new.facts.update(ONE_NONEMPTY)
        g = Ghost(V0 if keep is not None else ghost.val, ghost.rest)
        return new, ('o', 'X0'), g

    def report(self, rule, op, ghost, msg):
        key = (rule, op)
        if key in self.reported:
            return
        self.reported.add(key)
        line = self.c.node.lineno
        m = self.c.find_method(op) or self.c.find_method('__' + op + '__')
        path = self.path
        if m is not None:
            line, path = m.lineno, m.module.path
        self.ctx.find(rule, path, line, f'{self.c.qual} {op}', f'{msg} (state: {ghost})')

    def results(self, rs, op, ghost, allow_raise=False):
        """Filter tainted results and unexpected exceptions."""
        out = []
        for v, s in rs:
            if s.tainted:
                self.ctx.undet(f'{self.c.qual}.{op}: {s.tainted[0]}')
                continue
            if is_raise(v):
                if not allow_raise:
                    self.report('view-operation-fails', op, ghost, f'operation {op} raises {v[1][1]}')
                continue
            out.append((v, s))
        return out

    # ------------------------------------------------------------------ views
    def check_views(self, st, x, g, last):
        """Evaluate every view; returns the successor states (views change the lazy representation)."""
        it, nxt = self.it, []
        n_ok = 0
        for v, s in self.results(it.to_str(x, st.fork(), NODE), '__str__', g):
            n_ok += self.check_string(v, g, last)
            nxt.append(s)
        for v, s in self.results(it.getitem(x, K, st.fork(), NODE), '__getitem__', g):
            good = v == C('') if g.val is None else v == TRUE if g.val == TRUE else has(v, g.val)
            if not good:
                if self.known_value(v):
                    self.report('mapping-view', last, g, f'after {last}, item access yields {self.show(v)}')
                else:
                    self.ctx.undet(f'{self.c.qual}: item access after {last}')
            else:
                n_ok += 1
            nxt.append(s)
        for v, s in self.results(it.contains(x, K, st.fork(), NODE), '__contains__', g):
            for t, s2 in it.truth(v, s):
                if t is not (g.val is not None):
                    self.report('mapping-view', last, g, f'after {last}, membership of the name yields {t}')
                else:
                    n_ok += 1
                nxt.append(s2)
        for items, s in it.iterate(x, st.fork(), NODE):
            if items and items[0] == '!raise':
                self.results([(items, s)], '__iter__', g)
                continue
            if s.tainted:
                self.ctx.undet(f'{self.c.qual}.__iter__')
                continue
            n = sum(1 for i in items if not is_gap(i) and i == K)
            extra = [i for i in items if not is_gap(i) and i != K]
            gaps = set()
            for i in items:
                if is_gap(i):
                    roots_of(i, gaps)
            want = {'gen:' + g.rest} if g.rest else set()
            if any(is_gap(i) and not roots_of(i) for i in items):
                self.ctx.undet(f'{self.c.qual}.__iter__: entries of unknown origin')
                continue
            if n != (0 if g.val is None else 1):
                self.report('mapping-view', last, g, f'after {last}, iteration yields the name {n} times')
            elif extra:
                self.ctx.undet(f'{self.c.qual}.__iter__: {extra[:2]}')
            elif gaps != want:
                self.report('mapping-view', last, g, f'after {last}, iteration yields other entries {self.rest(gaps)}')
            else:
                n_ok += 1
            nxt.append(s)
        for v, s in self.results(it.call_builtin('len', [x], {}, st.fork(), NODE, None), '__len__', g):
            if is_c(v):
                want = 0 if g.empty() else 1 if g.rest is None else None
                if want is not None and v[2] != want or want is None and v[2] == 0:
                    self.report('mapping-view', last, g, f'after {last}, length is {v[2]}')
                else:
                    n_ok += 1
            nxt.append(s)
        for _ in range(n_ok):
            self.ctx.ok()
        return nxt

    def known_value(self, v):
        return is_c(v) or has(v, V0) or has(v, V1) or has(v, W) or has(v, S('stale', 'str'))

    def rest(self, gaps):
        return 'none' if not gaps else 'left over from another content' if 'gen:r0' not in gaps or len(gaps) > 1 \
            else 'present'

    def show(self, v):
        if is_c(v):
            return repr(v[2])
        if has(v, S('stale', 'str')):
            return 'an earlier value'
        return 'another value'

    def check_string(self, v, g, last):
        if g.empty():
            if v == self.empty_form:
                return 1
            if is_c(v) or v[0] in ('join', 'cat'):
                self.report('string-view', last, g, f'after {last}, the string view of an empty mapping is '
                            f'{v[2]!r}, not {self.empty_form[2]!r}' if is_c(v) else
                            f'after {last}, the string view still shows entries although the mapping is empty')
            else:
                self.ctx.undet(f'{self.c.qual}.__str__ after {last}')
            return 0
        if is_c(v):
            self.report('string-view', last, g, f'after {last}, the string view is {v[2]!r} although the mapping is '
                        'not empty')
            return 0
        if v[0] == 'join':
            items = v[2]
        elif v[0] in ('cat', 's'):
            items = (v,)
        else:
            self.ctx.undet(f'{self.c.qual}.__str__ after {last}: {str(v)[:60]}')
            return 0
        mine = [i for i in items if not is_gap(i) and has(i, K)]
        others = [i for i in items if not is_gap(i) and not has(i, K)]
        gaps = set()
        for i in items:
            if is_gap(i):
                roots_of(i, gaps)
        want = {'gen:' + g.rest} if g.rest else set()
        if any(is_gap(i) and not roots_of(i) for i in items):
            self.ctx.undet(f'{self.c.qual}.__str__ after {last}: entries of unknown origin')
            return 0
        if others:
            self.ctx.undet(f'{self.c.qual}.__str__ after {last}: {str(others[0])[:60]}')
            return 0
        if len(mine) != (0 if g.val is None else 1):
            self.report('string-view', last, g, f'after {last}, the string view mentions the name {len(mine)} times')
            return 0
        if gaps != want:
            self.report('string-view', last, g, f'after {last}, the string view shows other entries '
                        f'{self.rest(gaps)}')
            return 0
        if mine:
            i = mine[0]
            if g.val == TRUE:
                good = i == K
            else:
                good = i[0] == 'cat' and i[1][0] == K and has(i, g.val)
            if not good:
                self.report('string-view', last, g, f'after {last}, the string view shows the name with another '
                            'value than the mapping view')
                return 0
        return 1

    # ------------------------------------------------------------------ setup
    def calibrate(self):
        """Empty form and separators, from a freshly built object."""
        it = self.it
        rs = [r for r in it.instantiate(self.c.qual, [], {}, State(), NODE) if not is_raise(r[0])]
        if not rs:
            raise Undetermined('cannot construct')
        forms = {v for x, s in rs for v, _ in it.to_str(x, s, NODE)}
        forms = {f for f in forms if is_c(f) and f[1] == 'str'}
        if len(forms) != 1:
            raise Undetermined(f'empty string form: {len(forms)} candidates')
        self.empty_form = forms.pop()
        st = State()
        d = st.new('D', Obj('dict', items=((K, V0), (S('key:l', 'str'), W)), fresh=True))
        st.facts.update(ONE_NONEMPTY)
        for x, s in it.instantiate(self.c.qual, [d], {}, st, NODE):
            if is_raise(x):
                continue
            for v, _ in it.to_str(x, s, NODE):
                if v[0] == 'join' and is_c(v[1]):
                    for i in v[2]:
                        if i[0] == 'cat' and i[1][0] == K and len(i[1]) >= 3 and is_c(i[1][1]):
                            self.sep, self.eq = v[1], i[1][1]
        if self.sep is None:
            raise Undetermined('separators not recognised')
        it.val_seps = {self.eq[2]}

    def sources(self, val, rest):
        """(description, builder) of every kind of content holding (val, rest): builder(st) -> value."""
        def piece():
            return K if val == TRUE else cat([K, self.eq, val])

        def as_str(st):
            items = ((gap(rest, nonempty=True),) if rest else ()) + ((piece(),) if val is not None else ())
            if len(items) == 1 and not is_gap(items[0]):
                return items[0]
            return ('join', self.sep, items)

        def as_dict(st):
            items = ((gap(rest, nonempty=True),) if rest else ()) + (((K, val),) if val is not None else ())
            return st.new('D', Obj('dict', items=items, fresh=True))
        if val is None and rest is None:
            return [('nothing', lambda st: NONE), ('the empty string', lambda st: C('')),
                    ('the empty form', lambda st: self.empty_form),
                    ('an empty dict', lambda st: st.new('D', Obj('dict', items=(), fresh=True)))]
        return [('a string', as_str), ('a dict', as_dict)]

    def initial(self):
        out = []
        for val in (None, V0, TRUE):
            for rest in (None, 'r0'):
                for desc, build in self.sources(val, rest):
                    st = State()
                    st.facts.update(ONE_NONEMPTY)
                    v = build(st)
                    g = Ghost(val, rest)
                    op = f'construction from {desc}'
                    for x, s in self.results(self.it.instantiate(self.c.qual, [v], {}, st, NODE), '__init__', g):
                        out.append((op, s, x, g))
                        # the source dict is copied, not shared
                        if v[0] == 'o':
                            self.mutate_dict(s, x, v, g, op)
        return out

    def mutate_dict(self, s, x, d, g, op):
        """Change a plain dict handed in earlier; the object must not notice."""
        s2 = s.fork()
        s2.w(d[1]).items = ()
        n = len(self.reported)
        self.check_views(s2, x, g, op + ', then clearing the dict that was passed in')
        s3 = s.fork()
        s3.w(d[1]).items = ((K, W),)
        if len(self.reported) == n:
            self.check_views(s3, x, g, op + ', then changing the dict that was passed in')

    # ------------------------------------------------------------------ operations
    def set_op(self, st, x, val):
        return [((NONE if fl is None else ('!raise',) + fl[1:]), s) for fl, s in self.it.setitem(x, K, val, st, NODE)]

    def method(self, st, x, name, args):
        it = self.it
        out = []
        for f, s in it.getattr(x, name, st, NODE):
            if is_raise(f):
                out.append((f, s))
            elif f[0] == 'mixin' and name == 'clear':
                out.append((TOP_SKIP, s))
            else:
                out.extend(it.call(f, args, {}, s, NODE))
        return out

    def del_op(self, st, x):
        m = self.c.find_method('__delitem__')
        if m is None:
            return [(('!raise', ('exc', 'TypeError', 'no deletion')), st)]
        return self.it.call_func(m, [x, K], {}, st, NODE)

    def ops(self, g):
        yield 'assignment of a value', lambda st, x: self.set_op(st, x, V1), Ghost(V1, g.rest)
        yield 'assignment of True', lambda st, x: self.set_op(st, x, TRUE), Ghost(TRUE, g.rest)
        yield 'assignment of None', lambda st, x: self.set_op(st, x, NONE), Ghost(None, g.rest)
        yield 'assignment of the empty string', lambda st, x: self.set_op(st, x, C('')), Ghost(None, g.rest)
        yield 'deletion', self.del_op, Ghost(None, g.rest)
        yield 'clear', lambda st, x: self.method(st, x, 'clear', []), Ghost()
        yield 'update', lambda st, x: self.method(
            st, x, 'update', [st.new('U', Obj('dict', items=((K, V1),), fresh=True))]), Ghost(V1, g.rest)
        yield 'setdefault', lambda st, x: self.method(st, x, 'setdefault', [K, V1]), \
            Ghost(g.val if g.val is not None else V1, g.rest)
        yield 'pop', lambda st, x: self.method(st, x, 'pop', [K, NONE]), Ghost(None, g.rest)
        yield 'get', lambda st, x: self.method(st, x, 'get', [K]), g

    def explore(self):
        it = self.it
        seen, todo = set(), []

        def push(op, st, x, g):
            st, x, g = self.canon(st, x, g)
            k = (st.key(), g.key())
            if k not in seen:
                if len(seen) >= MAX_STATES:
                    raise Undetermined('more abstract states than expected')
                seen.add(k)
                todo.append((op, st, x, g))
        for op, s, x, g in self.initial():
            push(op, s, x, g)
        while todo:
            last, st, x, g = todo.pop(0)
            before = len(self.reported)
            succ = self.check_views(st, x, g, last)
            if len(self.reported) > before:
                continue
            for s in succ:
                if not s.tainted:
                    push(last, s, x, g)
            for op, run, g2 in self.ops(g):
                self.ctx.count('operations analysed')
                for v, s in self.results(run(st.fork(), x), op, g):
                    if v is not TOP_SKIP:
                        push(op, s, x, g2)
            # replacement of the whole content
            for val in (None, V1, TRUE):
                for rest in (None, 'r1'):
                    for desc, build in self.sources(val, rest):
                        s0 = st.fork()
                        v = build(s0)
                        op = f'replacement by {desc}'
                        g2 = Ghost(val, rest)
                        for _, s in self.results(self.method(s0, x, 'set_mapping', [v]), op, g):
                            self.ctx.count('operations analysed')
                            if v[0] == 'o' and not is_c(v):
                                self.mutate_dict(s, x, v, g2, op)
                            if rest == 'r1':
                                s, _x, g3 = self.rename_rest(s, g2)
                            else:
                                g3 = g2
                            push(op, s, x, g3)
            # replacement by itself
            for _, s in self.results(self.method(st.fork(), x, 'set_mapping', [x]), 'replacement by itself', g):
                push('replacement by itself', s, x, g)
            # copies are independent and equal
            for y, s in self.results(self.method(st.fork(), x, 'copy', []), 'copy', g):
                if y[0] != 'o':
                    continue
                self.independent(s, y, x, g, g, 'copy')
            # another object built from, or replaced by, this one
            for y, s in self.results(it.instantiate(self.c.qual, [x], {}, st.fork(), NODE),
                                     'construction from another object', g):
                self.independent(s, y, x, g, g, 'construction from another object')
            for y, s in self.results(it.instantiate(self.c.qual, [], {}, st.fork(), NODE), 'construction', g):
                for _, s2 in self.results(self.method(s, y, 'set_mapping', [x]), 'replacement by another object', g):
                    self.independent(s2, y, x, g, g, 'replacement by another object')
        self.ctx.count('abstract states', len(seen))
        return len(seen)

    def rename_rest(self, s, g2):
        """The new other entries become the canonical ones."""
        s = s.fork()

        def fn(v):
            if v and v[0] == 's' and isinstance(v[1], str) and v[1].startswith('gen:'):
                return S({'gen:r1': 'gen:r0', 'gen:r0': 'gen:old'}.get(v[1], v[1]), v[2])
            return None
        for o in list(s.heap):
            ob = s.w(o)
            ob.attrs = {k: subst_syms(v, fn) for k, v in ob.attrs.items()}
            ob.items = tuple(subst_syms(i, fn) for i in ob.items)
        return s, None, Ghost(g2.val, 'r0')

    def independent(self, s, y, x, gy, gx, op):
        """y and x hold the given contents, and changing either leaves the other alone."""
        self.ctx.count('independence checks')
        n = len(self.reported)
        if y == x:
            self.report('independent', op, gx, f'{op} yields the same object, not an independent one')
            return
        self.check_views(s, y, gy, op)
        if len(self.reported) > n:
            return
        self.check_views(s, x, gx, op)
        for a, ga, b, gb, what in ((y, gy, x, gx, 'changing the new object'), (x, gx, y, gy, 'changing the old one')):
            for _, s2 in self.set_op(s.fork(), a, W):
                if is_raise(_) or s2.tainted or len(self.reported) > n:
                    continue
                self.check_views(s2, b, gb, f'{op}, then {what}')


TOP_SKIP = ('skip',)


def dual_classes(p):
    """Classes offering both views: __str__, item access and set_mapping on one object."""
    out = []
    for c in p.classes.values():
        ext = {str(b).rsplit('.', 1)[-1] for b in c.external_bases()}
        if c.find_method('set_mapping') and c.find_method('__str__') and c.find_method('__getitem__') and \
                ('MutableMapping' in ext or c.find_method('__setitem__')):
            out.append(c)
    return sorted(out, key=lambda c: c.qual)


def attribute_level(ctx, classes):
    """Properties of other classes that hold a dual dictionary: assigning one object's value to another copies it."""
    p = ctx.p
    quals = {c.qual for c in classes}
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        for name, setter in sorted(c.setters.items()):
            getter = c.getters.get(name)
            if getter is None:
                continue
            text = ast.dump(getter.node) + ast.dump(setter.node)
            if not any(q.rsplit('.', 1)[-1] in text for q in quals):
                continue
            ctx.count('attributes holding a dual dictionary')
            it = Interp(p, budget=150000)
            try:
                check_attribute(ctx, it, c, name, getter, setter, quals)
            except Undetermined as err:
                ctx.undet(f'{c.qual}.{name}: {err}')


def check_attribute(ctx, it, c, name, getter, setter, quals):
    probe = Explorer(ctx, c, it)
    probe.path = c.module.path

    def fresh(st, tag, attr):
        ob = Obj('inst', cls=c.qual, attrs={}, fresh=False)
        for b in c.mro():
            for s in b.slots or ():
                ob.attrs[s] = S(f'{tag}.{s}', '?')
        for s in slots_used(getter, setter):
            ob.attrs[s] = attr
        return st.new(tag, ob)

    def slots_used(*fs):
        out = set()
        for f in fs:
            me = f.params[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me \
                        and n.attr != name and n.attr.startswith('_'):
                    out.add(n.attr)
        return out
    for pre in ('unset', 'set'):
        st = State()
        st.facts.update(ONE_NONEMPTY)
        a = fresh(st, 'A', NONE)
        b = fresh(st, 'B', NONE)
        states = [st]
        if pre == 'set':
            states = []
            d = st.new('D0', Obj('dict', items=((K, V1),), fresh=True))
            for fl, s in it.setattr(b, name, d, st, NODE):
                if fl is None and not s.tainted:
                    states.append(s)
        for st in states:
            d = st.new('D', Obj('dict', items=((K, V0),), fresh=True))
            for fl, s in it.setattr(a, name, d, st, NODE):
                if s.tainted:
                    ctx.undet(f'{c.qual}.{name}')
                    continue
                if fl is not None:
                    ctx.find('attribute-assignment', c.module.path, setter.lineno, f'{c.qual}.{name}',
                             f'assigning a mapping raises {fl[1][1]}')
                    continue
                s4 = s.fork()
                s4.w(d[1]).items = ()
                expect(ctx, it, s4, a, c, name, setter, 'assigning a mapping and then clearing that mapping', V0)
                for va, s2 in it.getattr(a, name, s, NODE):
                    if is_raise(va) or s2.tainted:
                        continue
                    for fl2, s3 in it.setattr(b, name, va, s2, NODE):
                        if s3.tainted or fl2 is not None:
                            ctx.undet(f'{c.qual}.{name}')
                            continue
                        expect(ctx, it, s3, b, c, name, setter, 'assigning another object\'s value', V0)
                        for vb, s5 in it.getattr(b, name, s3, NODE):
                            if is_raise(vb) or vb[0] != 'o':
                                continue
                            for fl3, s6 in it.setitem(vb, K, W, s5, NODE):
                                if fl3 is None and not s6.tainted:
                                    expect(ctx, it, s6, a, c, name, setter,
                                           'assigning its value to another object and changing it there', V0)
                                    expect(ctx, it, s6, b, c, name, setter, 'item assignment', W)
            for val in (NONE, C('')):
                for fl, s in it.setattr(a, name, val, st.fork(), NODE):
                    if fl is None and not s.tainted:
                        expect(ctx, it, s, a, c, name, setter, f'assigning {val[2]!r}', None)


def expect(ctx, it, st, obj, c, name, setter, what, sym):
    for v, s in it.getattr(obj, name, st.fork(), NODE):
        if is_raise(v):
            ctx.find('attribute-assignment', c.module.path, setter.lineno, f'{c.qual}.{name}',
                     f'after {what}, reading the attribute raises {v[1][1]}')
            continue
        if v[0] != 'o' or s.tainted:
            ctx.undet(f'{c.qual}.{name}: {what}')
            continue
        for r, s2 in it.getitem(v, K, s, NODE):
            if is_raise(r) or s2.tainted:
                continue
            if (r == C('')) if sym is None else has(r, sym):
                ctx.ok()
            elif is_c(r) or has(r, V0) or has(r, V1) or has(r, W):
                ctx.find('attribute-assignment', c.module.path, setter.lineno, f'{c.qual}.{name}',
                         f'after {what}, the attribute does not hold the content that was assigned to it')
            else:
                ctx.undet(f'{c.qual}.{name}: {what}')


def run(ctx):
    ctx.rule('string-view', 'the string view shows exactly the entries of the ghost map (tracked name once, other '
             'entries iff present, the empty form iff empty)')
    ctx.rule('mapping-view', 'item access, membership, iteration and length agree with the ghost map')
    ctx.rule('independent', 'copies, and objects built from or replaced by another one, share no state with it')
    ctx.rule('attribute-assignment', 'attributes holding such an object copy what is assigned to them')
    classes = dual_classes(ctx.p)
    ctx.counts['classes with two views'] = len(classes)
    ctx.floor('classes with two views', 2)
    for c in classes:
        it = Interp(ctx.p, budget=3000000)
        ex = Explorer(ctx, c, it)
        try:
            ex.calibrate()
            n = ex.explore()
            ctx.ok(f'{c.qual}: {n} abstract states closed under all operations')
        except Undetermined as err:
            ctx.undet(f'{c.qual}: {err}')
    attribute_level(ctx, classes)
