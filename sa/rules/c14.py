"""C14: text is read and written in an explicit, locale-independent UTF-8 encoding."""
import ast

from ..constflow import UNKNOWN, ConstFlow
from ..util import default_of, kwarg, where

TECHNIQUE = 'interprocedural constant propagation over every file-opening call site'
EXPLANATION = ('Every call that can open a text stream (builtin open, io/gzip/bz2/lzma/codecs open, TextIOWrapper, '
               'os.fdopen, tempfile, Path.open/read_text/write_text), resolved through imports, local aliases and '
               'dispatch tables, must receive an encoding argument whose possible constants (followed through '
               'locals, parameters with their defaults and all call sites, and attributes) are all UTF-8, and no '
               'error handler that drops bytes; str.encode/bytes.decode with a constant codec must use UTF-8; '
               'block readers must default to the BOM-tolerant variant and writers must not emit a BOM.')

# callee -> (index of mode argument, index of encoding argument, default mode, index of errors)
OPENERS = {
    'builtins.open': (1, 3, 'r', 4), 'io.open': (1, 3, 'r', 4), 'gzip.open': (1, 3, 'rb', 4),
    'bz2.open': (1, 3, 'rb', 4), 'lzma.open': (1, None, 'rb', None), 'codecs.open': (1, 2, 'r', 3),
    'io.TextIOWrapper': (None, 1, 'r', 2), 'os.fdopen': (1, 3, 'r', 4),
    'tempfile.NamedTemporaryFile': (0, 2, 'w+b', None), 'tempfile.TemporaryFile': (0, 2, 'w+b', None),
    'tempfile.SpooledTemporaryFile': (1, 3, 'w+b', None), 'fileinput.input': (None, None, 'r', None),
    'fileinput.FileInput': (None, None, 'r', None), 'pathlib.Path.open': (0, 2, 'r', 3),
}
METHODS = {'read_text': (None, 0, 'r', 1), 'write_text': (None, 1, 'w', 2)}
UTF8 = {'utf-8', 'utf8', 'utf_8', 'u8'}
SIG = {'utf-8-sig', 'utf_8_sig', 'utf8-sig', 'utf8_sig'}
OK_ERRORS = {None, 'strict'}
SITES = []


def norm(v):
    return v.lower() if isinstance(v, str) else v


def run(ctx):
    p = ctx.p
    cf = ConstFlow(p)
    SITES.clear()
    ctx.rule('honoured', 'a class that takes an encoding parameter opens its data streams with exactly that value, '
             'and the default of every reader and writer reaches an opener')
    ctx.rule('explicit-utf8', 'a text stream is opened with an explicit encoding that can only be UTF-8')
    ctx.rule('no-lossy-errors', 'no error handler other than strict')
    ctx.rule('bom', 'readers default to the BOM-skipping codec; writers never default to a BOM-writing one')
    ctx.rule('codec', 'constant codecs of encode()/decode() are UTF-8')
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = p.enclosing(m, n)
            specs = []
            for t in sorted((x for x in cf.sc.resolve(m, f, n.func) if isinstance(x, str))):
                if isinstance(t, str) and t in OPENERS:
                    specs.append((t, OPENERS[t]))
            if not specs and isinstance(n.func, ast.Attribute):
                if n.func.attr in METHODS:
                    specs.append(('Path.' + n.func.attr, METHODS[n.func.attr]))
                elif n.func.attr == 'open':
                    rs = cf.sc.resolve(m, f, n.func)
                    src = ast.unparse(n.func.value)
                    if not rs and ('Path(' in src or 'path' in src.lower()) and 'zip' not in src.lower():
                        specs.append(('Path.open', OPENERS['pathlib.Path.open']))
                elif n.func.attr in ('encode', 'decode'):
                    codec(ctx, cf, m, f, n)
            if not specs:
                continue
            ctx.count('text_open_candidates')
            site(ctx, cf, m, f, n, specs)
    ctx.floor('text_open_candidates', 2)
    readers(ctx, cf)
    honoured(ctx, cf)


def codec(ctx, cf, m, f, n):
    enc = n.args[0] if n.args else kwarg(n, 'encoding')
    err = n.args[1] if len(n.args) > 1 else kwarg(n, 'errors')
    c = where(m, f)
    if enc is not None:
        vals = cf.values(m, f, enc)
        bad = sorted(str(v) for v in vals if v is not UNKNOWN and isinstance(v, str) and norm(v) not in UTF8 | SIG
                     and norm(v) not in ('unicode_escape', 'unicode-escape', 'idna', 'punycode', 'base64', 'hex'))
        if bad:
            ctx.find('codec', m.path, n.lineno, f'{c}|{n.func.attr}({",".join(bad)})',
                     f'text is converted with codec {", ".join(bad)}, not UTF-8')
            return
    if err is not None:
        vals = cf.values(m, f, err)
        bad = sorted(str(v) for v in vals if v in ('ignore', 'replace'))
        if bad:
            ctx.find('no-lossy-errors', m.path, n.lineno, f'{c}|{n.func.attr} errors={bad}',
                     f'undecodable or unencodable characters are silently dropped (errors={bad})')
            return
    ctx.count('codec_calls')
    ctx.ok()


def arg(n, pos, *names):
    for nm in names:
        k = kwarg(n, nm)
        if k is not None:
            return k
    if pos is not None and pos < len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args[:pos + 1]):
        return n.args[pos]
    return None


def site(ctx, cf, m, f, n, specs):
    c = where(m, f)
    if any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
        ctx.undet(f'{m.path}:{n.lineno} {ast.unparse(n)[:70]}: forwarded arguments')
        return
    for name, (mi, ei, dmode, ri) in specs:
        mode = arg(n, mi, 'mode')
        modes = {dmode} if mode is None else cf.values(m, f, mode)
        modes = {x for x in modes if isinstance(x, str) and x is not UNKNOWN} or ({'r'} if UNKNOWN in modes else set())
        if modes and all('b' in x for x in modes):
            ctx.ok()
            continue
        if name in ('gzip.open', 'bz2.open', 'lzma.open') and modes and not any('t' in x for x in modes):
            ctx.ok()      # binary by default
            continue
        if name == 'codecs.open' and arg(n, ei, 'encoding') is None:
            pass
        writing = any(set(x) & set('wax+') for x in modes)
        enc = arg(n, ei, 'encoding')
        con = f'{c}|{name}'
        if enc is None:
            ctx.find('explicit-utf8', m.path, n.lineno, con,
                     f'{ast.unparse(n)[:80]} opens a text stream without an encoding: the locale decides')
            return
        vals = cf.values(m, f, enc)
        bad = sorted(str(v) for v in vals if v is not UNKNOWN and norm(v) not in UTF8 | SIG)
        if bad:
            ctx.find('explicit-utf8', m.path, n.lineno, con,
                     f'{ast.unparse(n)[:80]}: encoding can be {", ".join(bad)}')
            return
        if writing and any(norm(v) in SIG for v in vals):
            ctx.find('bom', m.path, n.lineno, con, f'{ast.unparse(n)[:80]} writes a byte order mark')
            return
        err = arg(n, ri, 'errors')
        if err is not None:
            bad = sorted(str(v) for v in cf.values(m, f, err) if v is not UNKNOWN and v not in OK_ERRORS)
            if bad:
                ctx.find('no-lossy-errors', m.path, n.lineno, con,
                         f'{ast.unparse(n)[:80]}: errors={bad} hides undecodable bytes')
                return
        SITES.append((m, f, n, name, vals, writing))
        if not (vals - {UNKNOWN}):
            ctx.undet(f'{m.path}:{n.lineno} {ast.unparse(n)[:70]}: encoding value not followed')
            return
    ctx.ok(f'{m.path}:{n.lineno} {ast.unparse(n)[:90]}')


def readers(ctx, cf):
    """The `encoding` default of block readers skips a BOM; that of writers does not add one."""
    p = ctx.p
    rd = p.classes.get('udapi.core.basereader.BaseReader')
    wr = p.classes.get('udapi.core.basewriter.BaseWriter')
    for base, want, label in ((rd, SIG, 'reader'), (wr, UTF8, 'writer')):
        if base is None:
            continue
        for c in base.all_subs():
            init = c.methods.get('__init__')
            if init is None or 'encoding' not in init.params + [a.arg for a in init.node.args.kwonlyargs]:
                continue
            ctx.count(label + '_encoding_defaults')
            d = default_of(init.node, 'encoding')
            vals = cf.values(init.module, None, d) if d is not None else set()
            bad = [v for v in vals if v is not UNKNOWN and norm(v) not in want]
            if c.name == 'FindBug':
                bad = [v for v in vals if v is not UNKNOWN and norm(v) not in UTF8 | SIG]
            if bad:
                ctx.find('bom', init.path, init.lineno, f'{c.qual}.__init__|encoding',
                         f'default encoding of this {label} is {bad[0]!r}')
            else:
                ctx.ok(f'{c.qual}: default encoding {sorted(map(str, vals))}')


def honoured(ctx, cf):
    p = ctx.p
    with_items = {id(x) for m in p.modules.values() for n in ast.walk(m.tree) if isinstance(n, (ast.With, ast.AsyncWith))
                  for it in n.items for x in ast.walk(it.context_expr)}
    for m, f, n, name, vals, writing in SITES:
        g, c = f, None
        while g is not None and c is None:
            c, g = g.cls, g.parent
        if c is None or id(n) in with_items or f.is_static:     # without an instance there is no encoding to honour
            continue
        init = c.find_method('__init__')
        if init is None or 'encoding' not in init.params + [a.arg for a in init.node.args.kwonlyargs]:
            continue
        want = cf.param_values(init, 'encoding') - {UNKNOWN}
        missing = sorted(str(w) for w in want - vals)
        if missing and UNKNOWN not in vals:
            ctx.find('honoured', m.path, n.lineno, f'{where(m, f)}|{name}',
                     f'{ast.unparse(n)[:80]} ignores the encoding given to {c.name} (e.g. {missing[0]})')
        else:
            ctx.ok(f'{m.path}:{n.lineno} uses the encoding given to {c.name}')
    for qual in ('udapi.core.basereader.BaseReader', 'udapi.core.basewriter.BaseWriter'):
        c = p.classes.get(qual)
        init = c.methods.get('__init__') if c else None
        if init is None:
            continue
        d = default_of(init.node, 'encoding')
        vals = (cf.values(init.module, None, d) if d is not None else set()) - {UNKNOWN}
        writer = qual.endswith('BaseWriter')
        reach = set()
        for _, _, _, _, v, w in SITES:
            if w == writer:
                reach |= v
        for v in sorted(vals - reach, key=str):
            ctx.find('honoured', init.path, init.lineno, f'{qual}.__init__|encoding flow',
                     f'the encoding parameter (default {v!r}) reaches no file-opening call')
        if not vals - reach:
            ctx.ok()
