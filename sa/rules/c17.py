"""C17: text of the document cannot break out of the HTML, XML, JSON or TeX around it."""
from ..markup import Unsupported, Writer
from ..util import Scopes

EXPLANATION = ('Every writer class is interpreted abstractly from the start of the output to its end (virtual calls resolved for '
               'that class): printed values are sequences of literals and document text with the set of markup characters it '
               'can still contain after the escaping functions applied to it (judged by what they replace), and a lexer of '
               'HTML/XML, JSON in scripts and TeX tells where each piece is printed.')
TECHNIQUE = 'abstract interpretation of string building (character-set taint) composed with a markup lexer'


def run(ctx):
    ctx.rule('raw-text', 'document text is printed only with the characters replaced that have a meaning where it is printed')
    ctx.rule('escaped-twice', 'no text is escaped twice')
    ctx.rule('unclosed', 'tags, quotes, scripts and comments opened by a writer are closed at the end of each file')
    base = ctx.p.cls('udapi.core.basewriter.BaseWriter')
    sc = Scopes(ctx.p)
    for c in sorted(base.all_subs(), key=lambda c: c.qual):
        if c is base or not c.module.name.startswith('udapi.block.write'):
            continue
        w = Writer(ctx.p, c, sc)
        try:
            w.interpret()
        except (Unsupported, RecursionError, TypeError, KeyError, IndexError, AttributeError) as e:
            ctx.undet(f'{c.qual}: {type(e).__name__} {e}')
            continue
        ctx.count('writers interpreted')
        ctx.count('print calls reached', len(w.prints))
        if not (w.states_seen - {'start', 'plain'}):
            continue
        ctx.count('markup writers')
        ctx.ok(f'{c.qual}: lexer states {sorted(w.states_seen)}')
        for (f, line, origin, place), cs in sorted(w.problems.items(), key=lambda kv: (kv[0][0].qual, kv[0][1], kv[0][2])):
            ctx.find('raw-text', f.module.path, line, f'{f.qual}:{origin}',
                     f'write.{c.name}: {origin} is printed in {place} although it may contain {" ".join(sorted(cs))}')
        for (fq, origin) in sorted(w.twice):
            f = ctx.p.functions.get(fq)
            ctx.find('escaped-twice', f.module.path if f else c.module.path, f.lineno if f else 0, f'{fq}:{origin}',
                     f'write.{c.name}: {origin} is escaped twice')
        for (fq, what), left in sorted(w.unclosed.items()):
            f = ctx.p.functions.get(fq)
            ctx.find('unclosed', f.module.path if f else c.module.path, f.lineno if f else c.node.lineno, f'{fq}:{what}',
                     f'write.{c.name}: at {what} the output may still be inside {", ".join(sorted(left))}')
    ctx.floor('writers interpreted', 10)
    ctx.floor('markup writers', 4)
