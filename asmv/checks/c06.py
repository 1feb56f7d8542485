"""C06: layout and spelling do not matter."""
import copy

from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a case counts when the rewritten text differs from the original and the program emits code (or is rejected '
        'with a line number); distinct by both texts')


def assemble(env, texts, isa, binfiles=None, fmt='S', extra=()):
    args = ['-' + fmt, '-o', 'out', '-s', 'out.sym']
    if isa == 6309:
        args.insert(0, '-3')
    files = dict(texts)
    files.update(binfiles or {})
    r = run.asm(env, args + list(extra) + [MAIN], files, ['out', 'out.sym'])
    if r.stdout:
        raise Violation('text copied to standard output: %r' % r.stdout[:200])
    return r


def same(a, b, what):
    if (a.rc == 0) != (b.rc == 0):
        bad = a if a.rc else b
        raise Violation('%s changes the verdict: %s' % (what, bad.stderr[:400].decode('latin-1')))
    if a.rc:
        return
    if a.out['out'] != b.out['out']:
        raise Violation('%s changes the generated code\n  %s\n  %s' % (
            what, outputs.show(outputs.srec(a.out['out']).segs), outputs.show(outputs.srec(b.out['out']).segs)))
    with judging('symbols file'):
        sa, sb = outputs.symbols(a.out['out.sym']), outputs.symbols(b.out['out.sym'])
    if sa != sb:
        raise Violation('%s changes the symbols' % what)


def base(s, n=10):
    case, g = program(s, ALL, n)
    case.render(render.Style(case.isa))
    case.model()        # discards programs outside the documented rules
    return case, g


def spelling(s, env):
    case, g = base(s)
    a = assemble(env, case.texts, case.isa)
    if a.rc == 0 and s.p(30):
        # the canonical text itself is judged by the model
        core.diff(case, env, fmt=fmt_for(s))
    t0 = dict(case.texts)
    n = 0
    for _ in range(3):
        case.render(render.RandStyle(s, case.isa))
        b = assemble(env, case.texts, case.isa)
        same(a, b, 'spelling')
        n += 1
    return Info(a.rc == 0 and case.texts != t0, ['ok' if a.rc == 0 else 'rejected'], case.source(), case.digest(),
                evals=n)


def atoms(s, env):
    """One datum in several notations: FQB of integers and characters, strings in
    both delimiters with escapes."""
    lines = []
    for _ in range(s.i(1, 8)):
        k = s.draw(5)
        if k <= 1:
            lines.append(Line(None, 'fqb', [I(s.pick([0, 7, 8, 9, 10, 63, 64, 255, 256, 0xabc, 0xdef0, 0xffff, 0x10000,
                                                       0x7fffffff, 0x80000000, 0xffffffff, s.i(0, 0xffff),
                                                       s.i(0, 0xffffffff)]))]))
        elif k == 2:
            lines.append(Line(None, 'fdb', [('chr', s.i(32, 126) if s.p(80) else s.i(128, 255))]))
        elif k == 3:
            lines.append(Line(None, 'fcc', [S(''.join(chr(s.w((12, s.i(32, 126)), (2, ord(s.pick('/"\\&{}*;'))),
                                                               (1, 10), (1, 13), (1, 9), (1, s.i(128, 255))))
                                                      for _ in range(s.i(1, 16))))]))
        elif k == 4:
            lines.append(Line(None, 'fqb', [('o', s.pick(['+', '-', '*', '&', '|', '^', '<<', '%', '/', '==', '&&']),
                                             ('u', s.pick('-+~!'), I(s.i(0, 9))), ('chr', s.i(33, 126)))]))
        else:
            lines.append(Line(None, 'fqb', [('o', s.pick(['+', '%', '&', '<', '>', '|']), ('pc',), I(s.i(1, 99)))]))
    case = Case({MAIN: lines}, isa=6809)
    case.render(render.RandStyle(s, 6809))
    o, r = core.diff(case, env, fmt=fmt_for(s))
    return Info(True, ['notation'], case.source(), case.digest(), evals=len(lines))


LENGTHS = [100, 127, 128, 255, 256, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8190, 8191, 8192, 8193, 8194, 16381,
           16382, 16383, 16384, 16385, 32767, 32768, 40000, 65536]


def rewrite(s, texts, emitted_only=False):
    """Text level rewrites.  Returns (new texts, line map old->new per file, names)."""
    new, maps, names = {}, {}, set()
    for fn, t in texts.items():
        lines = t.split('\n')[:-1]
        out, mp = [], {}
        insert = s.p(40)
        longs = s.p(30)
        trail = s.p(30)
        comm = s.p(30)
        for i, l in enumerate(lines):
            if insert and s.p(25):
                out.append(s.pick(['', '* comment', ';', '   ; fcb 1', '\t', ' \t ', '  * fcb 1', '*', '\t*\t"']))
                names.add('inserted lines')
            extra = ''
            if trail and s.p(40):
                extra = s.pick([' ', '\t', '    ', ' \t '])
                names.add('trailing space')
            if comm and s.p(40) and ';' not in l and not l.startswith('*') and l.strip():
                extra = s.pick([' ; x', '\t;"/', ' ;;;', ' ;\\1 &{3}'])
                names.add('comment')
            if longs and s.p(15):
                n = s.pick(LENGTHS) + s.pick([-2, -1, 0, 1])
                if l.startswith('*') or l.lstrip()[:1] == ';':
                    extra = 'x' * max(0, n - len(l))
                elif l.strip():
                    extra = s.pick([' ' * max(0, n - len(l)), ' ;' + 'y' * max(0, n - len(l) - 2)])
                else:
                    extra = ' ' * max(0, n - len(l))
                names.add('long line')
            out.append(l + extra)
            mp[i + 1] = len(out)
        eol = s.w((2, '\n'), (2, '\r\n'))
        if eol != '\n':
            names.add('CRLF')
        text = eol.join(out) + eol
        if s.p(30):
            text = text[:-len(eol)]
            if out and out[-1]:
                names.add('no final newline')
        new[fn], maps[fn] = text, mp
    return new, maps, names


def layout(s, env):
    case, g = base(s)
    a = assemble(env, case.texts, case.isa)
    t0 = dict(case.texts)
    tags = set()
    for _ in range(2):
        new, _, names = rewrite(s, t0)
        tags |= names
        b = assemble(env, new, case.isa)
        same(a, b, ' and '.join(sorted(names)) or 'rewriting')
    return Info(a.rc == 0 and bool(tags), sorted(tags), case.source(), case.digest(), evals=2)


def ignored(s, env):
    """OPT, TTL and STTL lines have no effect, wherever they stand and whatever
    follows them."""
    case, g = base(s, 8)
    a = assemble(env, case.texts, case.isa)
    n = 0
    for lines in case.files.values():
        for _ in range(s.i(1, 4)):
            args = s.pick([None, [ID(s.pick(['nol', 'l', 'cre', 'nowhere']))], [S(s.pick(['Title', 'a "b', '&{1}', '\\x']))],
                           [ID('m'), ID('nop'), I(s.i(0, 99))], [reg('x')], [('o', '/', I(1), I(0))], [('pc',)],
                           [('attr', '#', ID('nowhere'))], [('arr', [EMPTY, reg('y')])], [S('t'), I(-1)]])
            lines.insert(s.i(0, len(lines)), Line(None, s.pick(['opt', 'ttl', 'sttl']), args))
            n += 1
    case.render(style_for(s, case.isa))
    b = assemble(env, case.texts, case.isa)
    same(a, b, 'OPT/TTL/STTL')
    return Info(a.rc == 0 and n > 0, ['ignored directives'], case.source(), case.digest())


BAD = ['\tfoo\t1', '\tfcb\t"x"*x', '\tlda\t#', '\tfcb\t1+', '\tfcb\t(1', '\tadda\tnosuch', '\trmb\t-1',
       '\tfcb\t1 % 0', '\torg\t', '\tpshs\t5', '\tbra\t*+1000', '\tfdb\t9f', '\tendm', '\telse',
       '\tfcb\t"unterminated']


def diagnostics(s, env):
    """Messages name the physical line, whatever the layout."""
    case, g = base(s, 8)
    a = assemble(env, case.texts, case.isa)
    if a.rc:
        raise Discard('base program rejected')
    # only at the top level of the main file
    depth, spots = 0, []
    for i, ln in enumerate(case.files[MAIN]):
        op = (ln.op or '').lower()
        if op in ('endif', 'endm'):
            depth -= 1
        if depth == 0 and op != 'end':
            spots.append(i + 1)
        if op in ('if', 'macro'):
            depth += 1
    spots = [x for x in spots if x <= len(case.files[MAIN])]
    if not spots:
        raise Discard('no place')
    bad = s.pick(BAD)
    at = s.pick(spots)
    lines = case.texts[MAIN].split('\n')[:-1]
    # not between a MACRO/IF line and its body: spots are after a top-level line
    while at < len(lines) and case.files[MAIN][at - 1].op in ('if', 'macro'):
        at += 1
    depth = sum({'if': 1, 'macro': 1, 'endif': -1, 'endm': -1}.get((l.op or '').lower(), 0)
                for l in case.files[MAIN][:at])
    if depth:
        raise Discard('inside a block')
    lines.insert(at, bad)
    texts = dict(case.texts)
    texts[MAIN] = '\n'.join(lines) + '\n'
    new, maps, names = rewrite(s, texts)
    b = assemble(env, new, case.isa)
    if b.rc == 0:
        raise Violation('erroneous line %r accepted' % bad)
    want = '%s:%d:' % (MAIN, maps[MAIN][at + 1])
    if want.encode() not in b.stderr:
        raise Violation('error in line %s not reported there: %s' % (want, b.stderr[:400].decode('latin-1')))
    return Info(bool(names), ['line number after ' + n for n in names] or ['plain'], new[MAIN][:1000],
                repr((bad, at, texts)))


def biglines(s, env):
    """One very long line equals several short ones."""
    n = s.pick([50, 300, 1000, 2000, 3000, 5000])
    vals = [s.i(0, 255) for _ in range(min(n, 40))]
    vals = (vals * (n // len(vals) + 1))[:n]
    sep = s.pick([',', ', ', ' , ', ',\t'])
    num = s.pick(['%d', '$%02x', '0x%X', '(%d)', '@%o'])
    k = s.draw(2)
    if k == 0:
        one = '\tfcb\t' + sep.join(num % v for v in vals) + '\n'
        many = ''.join('\tfcb\t%d\n' % v for v in vals)
    elif k == 1:
        text = ''.join(chr(97 + v % 26) for v in vals)
        one = '\tfcc\t"%s"\n' % text
        many = ''.join('\tfcc\t"%s"\n' % text[i:i + 50] for i in range(0, n, 50))
    else:
        one = '\tfqb\t' + '+'.join(num % v for v in vals) + '\n'
        many = '\tfqb\t%d\n' % sum(vals)
    pre = '\torg\t$1000\nlab\tfdb\tlab\n'
    post = '\tfdb\tlab,*\n'
    a = assemble(env, {MAIN: pre + one + post}, 6809)
    b = assemble(env, {MAIN: pre + many + post.replace('*', '*')}, 6809)
    if a.rc or b.rc:
        raise Violation('long line rejected: %s' % (a.stderr + b.stderr)[:300].decode('latin-1'))
    same(a, b, 'joining into a %d character line' % len(one))
    return Info(True, ['%d characters' % len(one)], one[:200], repr((one[:50], n, sep, num, k)))


PARTS = [Part('text', textcases.part(), 36000, 400000), Part('spelling', spelling, 21300, 250000), Part('atoms', atoms, 16000, 200000),
         Part('layout', layout, 13300, 150000), Part('diagnostics', diagnostics, 10700, 120000),
         Part('ignored', ignored, 6700, 80000), Part('biglines', biglines, 210, 2000)]
ASSUME = []
