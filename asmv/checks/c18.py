"""C18: exit status and diagnostics tell the truth."""
import os
import re
import resource
import signal
import subprocess

from .. import model as model_mod, run, textcases
from .common import *   # noqa: F401,F403

RULE = ('blame: at least one erroneous line among error-free ones; warnings: at least one warning of the model; '
        'io: at least one requested file cannot be written or one input cannot be read; distinct by source and options')

INCONSISTENT, RANGE = model_mod.INCONSISTENT, model_mod.RANGE


# -- diagnostics ------------------------------------------------------------------

LOC = re.compile(r'^(warning: |syntax error: |error: )(?:(.+?):(\d+): )?(.*)$')


def parse(r):
    """[(kind, file, line, text)] of everything on stderr."""
    out = []
    for l in r.messages():
        m = LOC.match(l)
        if not m:
            raise Violation('not a diagnostic: %r' % l[:200])
        out.append((m.group(1).strip(' :'), m.group(2), int(m.group(3) or 0), m.group(4)))
    return out


def judge(case, o, r, overlap_ok=True):
    """Compare diagnostics with the errors of the model."""
    msgs = parse(r)
    errs = [m for m in msgs if m[0] != 'warning']
    if (r.rc == 0) != (not errs):
        raise Violation('exit status %d with messages %s' % (r.rc, r.stderr[:300]))
    if o.ok and not o.overlap:
        if r.rc:
            raise Violation('program without errors failed: %s' % r.stderr[:300])
        return 0
    if r.rc != 1:
        raise Violation('exit status %d for an erroneous program (%s)' % (r.rc, core.describe(o)))
    if o.ok:
        if any(m[1] for m in errs):
            raise Violation('overlap blamed on a line: %s' % r.stderr[:300])
        return 1
    want = {(e[1], e[2]) for e in o.errors if e[0] >= o.level}
    got = {(m[1], m[2]) for m in errs if m[1]}
    if got - want:
        raise Violation('line without error blamed: %s (errors: %s)\n  %s' % (
            sorted(got - want), core.describe(o), r.stderr[:400].decode('latin-1')))
    if want - got:
        raise Violation('erroneous line not reported: %s\n  %s' % (
            sorted(want - got), r.stderr[:400].decode('latin-1')))
    return len(want)


def untouched(o, r, outs, stale):
    """Erroneous programs change no file; others replace all of them."""
    for name in outs:
        if not o.ok and r.out[name] != stale:
            raise Violation('%s was %s although the program has errors' % (name, 'created' if stale is None else 'changed'))
        if o.ok and not r.rc and (r.out[name] is None or stale and r.out[name].endswith(b'#stale#')):
            raise Violation('%s was not (wholly) replaced' % name)


# -- erroneous lines --------------------------------------------------------------

def bad_line(s, g, names, files):
    """A line that parses but is an error; (class, line)."""
    k = s.draw(20)
    L = Line
    if k == 0:
        return 'unknown', L(None, s.pick(['nosuchop', 'ldaa', 'fcbb', 'ld', 'org1']), [I(1)])
    if k == 1:
        return 'argument count', L(None, s.pick(['fcb', 'fdb', 'fcc', 'rmb', 'put', 'fill', 'setdp']))
    if k == 2:
        return 'argument count', L(None, s.pick(['rmb', 'put', 'setdp', 'rzb', 'includebin']), [I(1), I(2), I(3)])
    if k == 3:
        return 'argument count', L(None, s.pick(['lda', 'ldx', 'jmp', 'bra', 'tfr', 'sta']))
    if k == 4:
        return 'type', L(None, s.pick(['fdb', 'rmb', 'setdp', 'fqb', 'rzb', 'put']), [reg(s.pick('xyu'))])
    if k == 5 and names:
        return 'redefined', L(lab(s.pick(names)), 'equ', [I(s.i(0, 9))])
    if k == 6 and names:
        return 'redefined', L(lab(s.pick(names)))
    if k == 7:
        return 'endm', L(None, 'endm')
    if k == 8:
        return 'undefined', L(None, s.pick(['fcb', 'fdb', 'lda', 'jsr', 'bra', 'lbra', 'rmb', 'org']), [ID('nowhere%d' % s.i(0, 2))])
    if k == 9:
        return 'local', L(None, s.pick(['bra', 'fdb', 'ldx']), [(s.pick(['b', 'fw']), 77)])
    if k == 10:
        return 'range', L(None, s.pick(['org', 'rmb', 'put', 'rzb', 'align']), [I(-s.i(2, 900))])
    if k == 11:
        return 'range', L(None, s.pick(['bra', 'bne', 'bsr']), [('o', s.pick('+-'), ('pc',), I(s.i(140, 9000)))])
    if k == 12:
        return 'file', L(None, s.pick(['include', 'lib']), [S('nofile%d' % s.i(0, 1))])
    if k == 13:
        return 'file', L(None, 'includebin', [S('nofile%d' % s.i(0, 1))])
    if k == 14:
        return 'mode', L(None, s.pick(['sta', 'stx', 'jmp', 'leax', 'inc']), [('attr', '#', I(s.i(0, 255)))])
    if k == 15:
        return 'mode', L(None, s.pick(['tfr', 'exg']), [reg('a'), reg('u'), reg('b')][:s.pick([1, 3])])
    if k == 16:
        return 'mode', L(None, s.pick(['leax', 'leay']), [I(s.i(0, 0xffff))]) if False else \
            L(None, s.pick(['pshs', 'puls']), [I(300), I(1)])
    if k == 17:
        return 'modulo', L(None, s.pick(['fcb', 'fdb', 'ldx']), [('o', '%', I(s.i(1, 9)), I(0))])
    if k == 18:
        return 'unknown', L(None, 'macro', None)        # no name: swallows lines up to ENDM
    if k == 19:
        return 'condition', L(None, s.pick(['if', 'if', 'elsif']), s.pick([None, [I(0), I(1)], [I(1), I(1)], [I(0), I(0), I(0)]]))
    return 'type', L(None, 'include', [I(1)])


def live_spots(lines):
    """Positions outside macro definitions."""
    out, deep = [], 0
    for i, l in enumerate(lines):
        op = (l.op or '').lower()
        if deep == 0:
            out.append(i)
        if op == 'macro':
            deep += 1
        elif op == 'endm':
            deep -= 1
        if op == 'end':
            break
    return out


def blame(s, env):
    """Erroneous lines put anywhere in a valid program."""
    # how much space an erroneous line takes up is its own affair, but may decide
    # conditionals
    conds = s.draw(1)
    g = Gen(s, feat=[f for f in ALL if conds or f != 'cond'])
    lines = g.program(s.length(4, 14, 8), s.i(0, 5))
    files = {MAIN: lines}
    files.update(g.files)
    names = [d['name'] for d in g.syms if d['kind'] in ('label', 'const') and 'name' in d]
    tags = set()
    n = s.w((5, 1), (3, 2), (2, 3), (1, 6))
    for _ in range(n):
        f = s.w((3, MAIN), (1, s.pick(sorted(files))))
        cls, bad = bad_line(s, g, names, files)
        if conds and cls not in ('unknown', 'redefined', 'endm', 'file', 'condition'):
            cls, bad = 'unknown', Line(None, 'nosuchop')
        if cls == 'unknown' and bad.op == 'macro':
            bad = Line(None, 'macro')
            where = live_spots(files[f])
            i = s.pick(where) if where else 0
            files[f][i:i] = [bad, Line(None, 'fcb', [I(7)]), Line(None, 'endm')]
        elif cls == 'condition':
            # whole conditionals, only their conditions are wrong
            where = live_spots(files[f])
            i = s.pick(where) if where else 0
            block = [bad, Line(None, 'fcb', [I(7)])]
            if bad.op == 'elsif':
                block.insert(0, Line(None, 'if', [I(s.w((4, 0), (1, 1)))]))
            elif s.p(20):
                block += [Line(None, 'elsif', [I(s.draw(1))]), Line(None, 'nop')]
            if s.p(50):
                block += [Line(None, 'else'), Line(None, 'fcb', [I(8)])]
            if s.p(20):
                block[1:1] = [Line(None, 'if', [I(s.draw(1))]), Line(None, 'nop'), Line(None, 'endif')]
            files[f][i:i] = block + [Line(None, 'endif')]
        elif cls == 'endm' and s.p(40):
            # a definition finished badly
            where = live_spots(files[f])
            i = s.pick(where) if where else 0
            files[f][i:i] = [Line(lab('mx%d' % len(files[f])), 'macro'), Line(None, 'fcb', [I(7)]),
                             Line(None, 'endm', s.pick([[I(1)], [reg('a')], [I(1), I(2)]]))]
        else:
            spots = live_spots(files[f]) if s.p(85) or cls == 'endm' else list(range(len(files[f])))
            i = s.pick(spots) if spots else 0
            if cls == 'argument count' and s.p(20):
                bad.label = lab('lbl%d' % len(tags))
            files[f].insert(i, bad)
        tags.add(cls)
    case = Case(files, isa=g.isa)
    case.render(style_for(s, g.isa))
    o = case.model()
    args = case.options() + ['-' + fmt_for(s), '-o', 'out'] + s.pick([[], [], ['-q'], ['-v']])
    outs = ['out']
    for opt, name in (('-l', 'out.lst'), ('-E', 'out.exp'), ('-s', 'out.sym')):
        if s.p(25):
            args += [opt, name]
            outs.append(name)
    # what was there before stays if the program is in error, and goes if not
    stale = b'#stale#' * s.pick([1, 100, 3000]) if s.p(60) else None
    files = dict(case.write())
    for name in outs if stale else ():
        files[name] = stale
    r = run.asm(env, args + case.main, files, outs, keep=stale is not None)
    k = judge(case, o, r)
    untouched(o, r, outs, stale)
    if stale and not r.rc and s.p(30):
        fresh = run.asm(env, args + case.main, None, outs)
        if fresh.out != r.out:
            raise Violation('outputs differ depending on what the files contained before')
    return info(case, o, k > 0, sorted(tags) + (['stale'] if stale else []))


UNPARSED = ['l: nop', ' 1 nop', '#1', '"abc" nop', 'l+1 equ 5', '+ nop', ' (nop', ' ,x', ' [fcb 1]', '-5 fcb 1', ' #lda 1',
            ' "fcb" 1', '(a) equ 1', '\xe9 nop', 'l\xe9 equ 1', ' \x80', ' \xff\xfe']


def unparsed(s, env):
    """Lines that don't parse, in any file: all of them are reported, nothing else."""
    lines = [org(0x1000)]
    where = {}
    nf = s.i(1, 3)
    texts = {}
    main = []
    total = 0
    for k in range(nf):
        name = 'f%d.s' % k
        out = []
        for _ in range(s.length(1, 12, 5)):
            if s.p(30):
                out.append((s.pick(UNPARSED), True))
                total += 1
            else:
                out.append((s.pick([' nop', ' fcb 1,2', 'l%d_%d fdb *' % (len(out), k), ' lda #1', '; text', '', '* x', ' rmb 2',
                                    ' if 1\n fcb 2\n endif', ' if 0\n fcb 2\n endif', ' fcc "a b"', ' bra *', ' fcb 1 caf\xe9 "x\\',
                                    ' lda 1,x first, then', ' fcb 1 "', ';\xff', '*\xe9',
                                    'm%d%d macro\n nop\n endm' % (k, len(out))]), False))
        text, ln = [], 1
        for t, bad in out:
            if bad:
                where.setdefault(name, set()).add(ln)
            text.append(t)
            ln += t.count('\n') + 1
        eol = s.pick(['\n', '\r\n'])
        texts[name] = eol.join(text).replace('\n', eol) if eol == '\n' else '\r\n'.join('\n'.join(text).split('\n'))
        texts[name] += s.pick([eol, ''])
        main.append(name)
    included = nf > 1 and s.draw(1)
    if included:
        # the last one is included by the first, after everything else
        inc = main.pop()
        first = main[0]
        t = texts[first]
        if not t.endswith('\n'):
            t += '\n'
        texts[first] = t + ' include "%s"\n' % inc
        early = any(where.get(m) for m in main)
        if early:
            where.pop(inc, None)        # never read
    r = run.asm(env, ['-o', 'out'] + main, texts, ['out'])
    want = {(f, l) for f, ls in where.items() for l in ls}
    msgs = parse(r)
    got = {(m[1], m[2]) for m in msgs if m[0] != 'warning'}
    if (r.rc == 0) != (not want):
        raise Violation('exit status %d, lines in error: %s\n%s' % (r.rc, sorted(want), r.stderr[:300].decode('latin-1')))
    if got != want:
        raise Violation('lines reported %s, lines in error %s' % (sorted(got, key=str), sorted(want)))
    return Info(bool(want), ['included' if included else 'listed'],
                '\n'.join('--- %s\n%s' % x for x in texts.items()), repr((texts, main)))


# -- operands that don't parse -----------------------------------------------------

# what can't follow a complete operand unless separated by white space
JUNK = ['"a', '"b"', ':', '}', '{', '@9', '#1', '[1]', ']', ')', '=', '`', '\xe9', '(1)', '++', '--', '!1', '~1', '!', '\\', '\xff\xfe', '=1', '.',
        '$G', "'", '@x', '$', '1:', ')x']
WORDS = ['G4', 'x', 'zz', '_1', 'bug', '9x', '9']
# what needs more to follow
MORE = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '&&', '||', '==', '!=', '<=', '>=', '<', '>', '?', '?1', '?1:', ',(', ',(1', ',[1',
        ',"a', ',/a', '+(', '-"a', ',#', ',1+', ',-', ',~', ',!1?', ',(2))', ',[1)', ',"a""b"', ',""', ',1,(2+3', '*(1', ',1)', ',$', ',{']
VALUES = ['1', '12', '$1f', '0x1F', '%101', '@17', "'a'", 'sym', '(1+2)', '(sym)', '1+2', 'sym*2', '-1', '*', '*+3', '"a"', '/ab/', '3/2', '~5', '3.5', "'a"]
REMARKS = ['hello', 'see (1)', '"quote', "it's \"one\"", '}', ': x', '$G', '[x', ')', '(1', 'lda #1', '1+', '= 1', '@', '{', '\xe9t\xe9', '\\', '`x` (', '_']
UNUSED = [' rts (return to caller)', ' rts {return}', ' swi @', ' nop ]', ' abx \\', ' clra }x', ' opt {', ' nop (', ' opt (x', ' ttl a "title', ' sttl it\'s', ' opt', ' page (', ' spc (1', ' nam (one two', ' clra "',
          ' ttl "a" b, (c', ' opt 1,2+', ' sttl a}', ' TTL x(']


# neither an operand nor a comment
NOTHING = ['$', '$zz', '@9', '@', '{', '}', '\\', ']x', ')', '=1', '?', ':1', '@8 x', '$ 1', '|', '=', '0x', '0b2']


def operands(s):
    vals = [s.pick(VALUES) for _ in range(s.length(1, 4, 3))]
    return s.pick([',', ',', ', ']).join(vals), vals[-1]


def line_of(s, text, last):
    """A line whose operands are text (last: the last of them as it was)."""
    k = s.draw(7)
    if k == 0:
        return '%s %s %s' % (s.pick(['', 'lbl']), s.pick(['fcb', 'fdb', 'FQB', 'fcc', 'fcn']), text)
    if k == 1:
        return ' mm %s' % text
    if k == 2:
        return ' fdb\t%s' % text
    return '%s %s' % (s.pick(['', '', 'lbl']), s.pick(['fcb %s', 'fcb 1,%s', 'fdb %s'])) % text


def malformed(s, env):
    """Operands that don't parse are reported, a remark after those that do is not."""
    texts, want = {}, set()
    n = s.i(1, 3)
    kinds = set()
    nlab = 0
    for f in range(n):
        name = 'f%d.s' % f
        out = []
        if f == 0:
            out += ['sym equ 4', 'mm macro', ' fcb 1', ' endm']
        close = []
        for _ in range(s.length(1, 10, 4)):
            k = s.draw(10)
            text, last = operands(s)
            bad = False
            if k < 3:
                j = s.pick(JUNK + WORDS) if not (last[-1].isalpha() or last[-1] in "*'") else s.pick(JUNK)
                if last in ("'a", "'a'") and j[0] == "'":
                    j = '}'
                if last == '*' and j in ('(1)', ')x', '~1', '!1', '!'):
                    j = '}'
                if j in ('9x', '9', '1:', '.') and last[-1].isalnum():
                    j = ':'
                line = line_of(s, text + j, last)
                line += s.pick(['', '', ' ', ' ; c', ' and more', ';x'])
                bad = True
                kinds.add('attached')
            elif k < 6:
                j = s.pick(MORE)
                if j == '"a' or last == "'a":
                    j = ',('
                gap = s.pick(['', '', ' '])
                if last == '*' and j == '/':
                    gap = ''            # a string may follow `* `
                line = line_of(s, text + gap + j, last)
                line += s.pick(['', '', ' ', ' ; c', ';x'])
                bad = True
                kinds.add('incomplete')
            elif k == 9:
                line = line_of(s, s.pick(['', '', text + ',', text + ', ', '1,,', ' ', ', ', '#', '(']) + s.pick(NOTHING), last)
                line += s.pick(['', '', ' ', ' ; c', ' and more', ';x'])
                bad = True
                kinds.add('no operand')
            elif k == 6:
                line = s.pick(UNUSED)
                kinds.add('unused')
            elif k == 7:
                line = s.pick([' if 0', ' if 1', 'm%d_%d macro' % (f, len(out))])
                close.append(' endm' if 'macro' in line else ' endif' + s.pick(['', ' (that', ' of it']))
                kinds.add('block')
            else:
                line = line_of(s, text, last) + s.pick([' ', '\t', '  ']) + s.pick(REMARKS)
                kinds.add('remark')
            if line.startswith('lbl'):
                nlab += 1
                line = 'lbl%d%s' % (nlab, line[3:])
            out.append(line)
            if bad:
                want.add((name, len(out)))
            while close and s.p(40):
                out.append(close.pop())
        out += reversed(close)
        eol = s.pick(['\n', '\n', '\r\n'])
        texts[name] = eol.join(out) + s.pick([eol, eol, ''])
    old = s.pick([None, b'old'])
    files = dict(texts, out=old) if old else texts
    r = run.asm(env, ['-o', 'out'] + sorted(texts), files, ['out'], keep=old is not None)
    if want and r.out['out'] != old:
        raise Violation('output changed although the program has errors')
    msgs = parse(r)
    got = {(m[1], m[2]) for m in msgs if m[0] != 'warning'}
    if (r.rc == 0) != (not want):
        raise Violation('exit status %d, lines in error: %s\n%s' % (r.rc, sorted(want), r.stderr[:300].decode('latin-1')))
    if got != want:
        raise Violation('lines reported %s, lines in error %s\n%s' % (sorted(got, key=str), sorted(want), r.stderr[:300].decode('latin-1')))
    return Info(bool(want), sorted(kinds), '\n'.join('--- %s\n%s' % x for x in sorted(texts.items())), repr(sorted(texts.items())))


# -- any text ----------------------------------------------------------------------

def text(s, env):
    """Arbitrary text, read for the model by an independent parser: rejected if and
    only if some line is in error, and exactly those lines are reported."""
    case, bad = textcases.make(s, files=s.p(30), opts=s.p(20))
    textcases.fresh(env)
    stale = s.pick([None, b'#stale#'])
    files = case.write()
    out = 'the output'
    if stale:
        files[out] = stale
    fmt = s.pick('CSHD')
    opt, least = s.pick([([], 2), (['-v'], 1), (['-q'], 3)])
    args = case.options() + opt + ['-' + fmt, '-o', out] + case.main
    if bad:
        r = run.asm(env, args, files, [out], keep=stale is not None)
        got = {(m[1], m[2]) for m in parse(r) if m[0] != 'warning'}
        want = {(f, n) for f in bad for n in bad[f]}
        if r.rc != 1 or got != want:
            raise Violation('exit status %d, lines reported %s, lines that are malformed %s\n%s' % (
                r.rc, sorted(got, key=str), sorted(want), r.stderr[:300].decode('latin-1')))
        if r.out[out] != stale:
            raise Violation('output changed although the program has errors')
        return Info(True, ['malformed lines'], case.source(), case.digest())
    o = case.model()
    if o.ok and o.exec is not None and o.exec_addr is None:
        o.overlap = True            # EXEC address is no number: reported for no line, too
    if o.ok and not o.overlap and outputs.expected(fmt, o.segments, o.exec_addr) is None:
        raise Discard('cannot be represented')
    if any(e[3] == 'unfinished macro' for e in o.errors):
        raise Discard('unfinished macro, reported by its name')
    r = run.asm(env, args, files, [out], keep=stale is not None)
    k = judge(case, o, r)
    w = {(m[1], m[2]) for m in parse(r) if m[0] == 'warning'}
    want = {(x[1], x[2]) for x in o.warnings if x[0] >= least} if o.ok else set()
    if w != want and not o.overlap:
        raise Violation('warnings %s with %s, expected %s\n  %s' % (sorted(w), opt, sorted(want), r.stderr[:300].decode('latin-1')))
    if not o.ok and r.out[out] != stale:
        raise Violation('output changed although the program has errors')
    return info(case, o, k > 0 or bool(w))


# -- long files --------------------------------------------------------------------

def far(s, env):
    """Lines are numbered rightly however many there are."""
    n = s.pick([126, 127, 254, 255, 256, 257, 999, 1023, 4095, 9999, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000,
                131071, 131073]) + s.draw(2)
    filler = s.pick(['', '', '; comment', ' nop ; x'] if n < 60000 else ['', '', '* c', ' if 0\n nop\n endif'])
    k = s.draw(3)
    kind = s.draw(2)
    if k == 3:
        # lines of a macro without content don't count
        filler = ' if 0\n nop\n endif' if n > 60000 or s.draw(1) else ' nop'
    bad = [' nosuchop', ' fcb nowhere', ' bra *+5000'][kind]
    per = filler.count('\n') + 1
    rep = n // per
    body = (filler + '\n') * rep
    at = rep * per + 1
    texts = {MAIN: ' fcb 1\n'}
    if k == 0:
        texts[MAIN] = body + bad + '\n'
        where = (MAIN, at)
    elif k == 1:
        texts[MAIN] = ' fcb 1\n include "long.s"\n fcb 2\n'
        texts['long.s'] = body + bad + '\n fcb 3\n'
        where = ('long.s', at)
    elif k == 2:
        # the included file leaves the numbers of the including one alone
        texts[MAIN] = ' include "long.s"\n fcb 1\n' + bad + '\n'
        texts['long.s'] = body
        where = (MAIN, 3)
    else:
        texts[MAIN] = 'long macro\n' + body + bad + '\n endm\n fcb 1\n long\n'
        where = ('long', at)
    eol = s.pick(['\n', '\r\n'])
    texts = {f: t.replace('\n', eol) for f, t in texts.items()}
    r = run.asm(env, ['-o', 'out', MAIN], texts, ['out'], **{})
    msgs = parse(r)
    got = {(m[1], m[2]) for m in msgs if m[0] != 'warning' and m[1]}
    if r.rc != 1 or got != {where}:
        raise Violation('exit status %d, lines reported %s, line in error %s:%d' % ((r.rc, sorted(got, key=str)[:5]) + where))
    return Info(True, ['file', 'include', 'after include', 'macro'][k:k + 1] + ['%d lines' % (n // 1000 * 1000)],
                '%d lines of %r, then %r' % (rep, filler, bad), repr((n, filler, k, kind, eol)))


def crowd(s, env):
    """Every one of hundreds of erroneous lines is reported, and no other."""
    n = s.pick([5, 9, 10, 11, 16, 20, 21, 25, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 300, 400])
    kind = s.w((3, 'undefined'), (2, 'unknown'), (1, 'range'), (1, 'count'), (2, 'mixed'))
    dense = s.pick([10, 50, 90, 100])

    def bad(i):
        k = kind if kind != 'mixed' else s.pick(['undefined', 'unknown', 'range', 'count'])
        if k == 'undefined':
            return Line(None, s.pick(['fdb', 'ldx', 'lbra']), [ID('nowhere%d' % (i // s.pick([1, 1, 3])))])
        if k == 'unknown':
            return Line(None, s.pick(['nosuchop', 'op%d' % i]), s.pick([None, [I(i)]]))
        if k == 'range':
            return Line(None, 'bra', [('o', '+', ('pc',), I(1000 + i))])
        return Line(None, s.pick(['rmb', 'put', 'setdp']), [I(1), I(2), I(i)])

    files = {MAIN: [org(0x1000)]}
    where = [MAIN]
    left = n
    i = 0
    while left:
        cur = files[where[-1]]
        if s.p(dense):
            cur.append(bad(i))
            i += 1
            left -= 1
        else:
            cur.append(fcb(i & 255))
        if s.p(2) and len(files) < 7:
            f = 'inc%d.s' % len(files)
            files[f] = []
            cur.append(Line(None, 'include', [S(f)]))
            where.append(f)
        elif s.p(3) and len(where) > 1:
            where.pop()
        elif s.p(2):
            nm = 'mac%d' % len(cur) + where[-1][:4]
            m = [bad(i + 1000 + j) if s.draw(1) else fcb(j) for j in range(s.i(1, 5))]
            cur += [Line(lab(nm), 'macro')] + m + [Line(None, 'endm')] + [Line(None, nm) for _ in range(s.i(0, 3))]
    for f in files:
        files[f].append(fcb(9))
    case = Case(files)
    case.render(style_for(s, 6809))
    o = case.model()
    r = run.asm(env, case.options() + ['-o', 'out'] + case.main, case.write(), ['out'])
    k = judge(case, o, r)
    untouched(o, r, ['out'], None)
    return info(case, o, k > 0, ['%d+ lines in error' % (k // 50 * 50)])


# -- warnings ---------------------------------------------------------------------

def warn_line(s, isa):
    """A line that warrants a warning (mostly)."""
    k = s.draw(9)
    if k == 0:
        return Line(None, s.pick(['tfr', 'exg']), [reg(s.pick('abxyu')), reg(s.pick(['x', 'y', 'a', 'b', 'd', 'cc', 'dp']))])
    if k == 1:
        return Line(None, s.pick(['lbra', 'lbsr', 'lbne', 'lbeq']), [('o', '+', ('pc',), I(s.i(0, 100)))])
    if k == 2:
        return Line(None, s.pick(['tfr', 'exg']), [I(s.i(0, 15)), reg(s.pick('abxyu'))])
    if k == 3:
        return Line(None, s.pick(['tfr', 'exg']), [reg('a'), reg(s.pick('xyus'))])
    if k == 4:
        return Line(None, s.pick(['lbra', 'lbsr']), [('pc',)])
    if k == 5:
        return Line(None, s.pick(['tfr', 'exg']), [I(s.i(0, 15)), I(s.i(0, 15))])
    if k == 6:
        # indirect by one
        return Line(None, s.pick(['lda', 'ldx', 'jmp', 'stb']), [('arr', [EMPTY, s.pick([reg('x', '+'), reg('y', '-x'), reg('s', '+')])])])
    if k == 7:
        # extended address in the indexed form
        return Line(None, s.pick(['leax', 'leay']), [I(s.i(0, 0xffff))])
    if k == 8 and isa == 6309:
        return Line(None, s.pick(['band', 'stbt', 'ldbt', 'bieor']), [I(s.i(0, 3)), I(s.i(0, 7)), I(s.i(0, 7)), I(s.i(0, 255))])
    return Line(None, 'fcb', [I(1)])


def warnings(s, env):
    """Warnings leave the status and the files alone; -q and -v select them."""
    g = Gen(s, feat=['org', 'local', 'macro', 'include', 'cond'])
    lines = g.program(s.length(2, 8, 4), s.i(0, 3))
    files = {MAIN: lines}
    files.update(g.files)
    for _ in range(s.i(1, 4)):
        f = s.pick(sorted(files))
        files[f].insert(s.pick(live_spots(files[f]) or [0]), warn_line(s, g.isa))
    err = s.p(15)
    if err:
        files[MAIN].insert(s.pick(live_spots(lines)), Line(None, 'nosuchop'))
    case = Case(files, isa=g.isa)
    case.render(style_for(s, g.isa))
    o = case.model()
    fmt = fmt_for(s)
    ref = None
    warned = {}
    for opt, least in (([], 2), (['-q'], 3), (['-v'], 1), (['--quiet'], 3), (['--verbose'], 1)):
        outs = ['out', 'out.lst', 'out.sym']
        r = run.asm(env, case.options() + opt + ['-' + fmt, '-o', 'out', '-l', 'out.lst', '-s', 'out.sym'] + case.main,
                    case.write(), outs)
        judge(case, o, r)
        msgs = parse(r)
        w = {(m[1], m[2]) for m in msgs if m[0] == 'warning'}
        e = [m for m in msgs if m[0] != 'warning']
        if o.ok:
            want = {(x[1], x[2]) for x in o.warnings if x[0] >= least}
            if w != want:
                raise Violation('warnings %s with %s, expected %s\n  %s' % (
                    sorted(w), opt, sorted(want), r.stderr[:300].decode('latin-1')))
        # with an error, only messages of its level are printed
        elif w:
            raise Violation('warnings printed along with errors: %s' % r.stderr[:300].decode('latin-1'))
        state = (r.rc, e, r.out)
        if ref is None:
            ref = state
        elif state != ref:
            raise Violation('%s changes more than the warnings' % opt)
        warned[opt[0] if opt else ''] = len(w)
    return info(case, o, warned.get('-v', 0) > 0, ['%d warnings' % min(3, len(o.warnings))], evals=5)


# -- input and output faults -------------------------------------------------------

def limited(env, args, limit, outs):
    """Run with a file size limit; messages go through a pipe."""
    for o in outs:
        try:
            os.unlink(o)
        except (FileNotFoundError, IsADirectoryError):
            pass

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (10, 11))
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)

    env.runs += 1
    p = subprocess.run([env.exes['plain']] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       preexec_fn=pre, env=run.BASE_ENV, restore_signals=False, timeout=60)
    if env.log is not None:
        env.log.append(dict(args=args, rc=p.returncode, stderr=p.stderr.decode('latin-1')[:2000],
                            files={MAIN: open(MAIN, encoding='latin-1').read(), 'limit': str(limit)}))
    r = run.Result()
    r.rc, r.sig, r.timeout = p.returncode, max(0, -p.returncode), False
    r.stderr, r.stdout = p.stderr, p.stdout
    r.out = {}
    for o in outs:
        try:
            with open(o, 'rb') as f:
                r.out[o] = f.read()
        except OSError:
            r.out[o] = None
    run.check_clean(r)
    return r


def io_program(s):
    """A program with plenty of output of every kind."""
    lines = [org(s.pick([0x1000, 0, 0x4000]))]
    for k in range(s.w((3, s.i(1, 10)), (2, s.i(10, 120)))):
        j = s.draw(4)
        if j == 0:
            lines.append(Line(lab('sym_%d' % k), 'equ', [I(s.i(0, 70000))]))
        elif j == 1:
            lines.append(Line(lab('lab_%d' % k), 'fdb', [I(s.i(0, 65535)) for _ in range(s.i(1, 8))]))
        elif j == 2:
            lines.append(Line(None, 'fill', [I(s.i(0, 255)), I(s.pick([1, 10, 100, 1000, 5000]))]))
        elif j == 3:
            lines.append(Line(None, 'rmb', [I(s.i(1, 50))]))
        else:
            lines.append(Line(None, 'fcc', [S('some text')]))
    names = [l.label[1][0] for l in lines if l.label]
    lines += [Line(lab('mac'), 'macro')] + [Line(None, 'fcc', [S('a macro body')])] * s.i(1, 40) + [Line(None, 'endm')]
    lines.append(Line(None, 'export', [ID('mac')] + [ID(n) for n in names]))
    lines.append(Line(lab('go'), 'nop'))
    lines.append(Line(None, 'end', [ID('go')]))
    return lines


def io(s, env):
    """Requested files that can't be (completely) written."""
    case = Case({MAIN: io_program(s)})
    case.render(render.Style())
    o = case.model()
    if not o.ok or o.overlap:
        raise Discard('program too big')
    run.write_files(env, case.write())
    fmt = '-' + fmt_for(s)
    os.makedirs('adir', exist_ok=True)
    kinds = [('-o', 'out.bin'), ('-l', 'out.lst'), ('-s', 'out.sym'), ('-E', 'out.exp')]
    sel = [k for k in kinds if s.p(60)] or [kinds[0]]
    sel = s.shuffle(sel)
    good = [a for k in sel for a in k]
    ref = limited(env, [fmt] + good + [MAIN], None, [k[1] for k in sel])
    if ref.rc or any(ref.out[k[1]] is None for k in sel):
        raise Violation('valid program rejected or output missing: %s' % ref.stderr[:300])
    mode = s.draw(2)
    tags = []
    if mode == 0:
        # limit the size of files
        sizes = sorted(len(v) for v in ref.out.values())
        top = sizes[-1]
        limit = s.pick([0, 1, top - 1, top, top // 2, sizes[0], sizes[0] - 1, 4095, 4096, 4097, 511, 8192, s.i(0, top)])
        limit = max(0, limit)
        r = limited(env, [fmt] + good + [MAIN], limit, [k[1] for k in sel])
        bad = [k[0] for k in sel if len(ref.out[k[1]]) > limit]
        tags.append('limit' if bad else 'limit not reached')
        args = good
    else:
        args, bad = [], []
        for k in sel:
            if s.p(50):
                p = s.pick(['/dev/full', '/dev/full', 'adir', 'nodir/file', 'adir/x/y', '', 'out.bin/x', 'x' * 300])
                args += [k[0], p]
                # nothing needs to be written to a full device if there is nothing to write
                if not (p == '/dev/full' and not ref.out[k[1]]):
                    bad.append(k[0])
                tags.append(k[0] + ' ' + p[:12])
            else:
                args += k
        r = limited(env, [fmt] + args + [MAIN], None, [k[1] for k in sel])
    msgs = parse(r)
    if bad:
        if r.rc != 1:
            raise Violation('exit status %d although %s could not be written (%s)' % (r.rc, bad, ' '.join(args)))
        if not any(m[0] == 'error' for m in msgs):
            raise Violation('no error message although %s could not be written' % bad)
        if any(m[1] in case.files for m in msgs):
            raise Violation('a source line is blamed for an output fault: %s' % r.stderr[:300])
    else:
        if r.rc or msgs:
            raise Violation('failed although everything could be written: %s' % r.stderr[:300])
        for k in sel:
            if k[1] in args and r.out[k[1]] != ref.out[k[1]]:
                raise Violation('%s differs' % k[0])
    return Info(bool(bad), tags, ' '.join([fmt] + args) + '\n' + case.source()[:600],
                repr((case.digest(), fmt, args, mode and 1 or limit)), evals=2)


def inputs(s, env):
    """Sources and included files that can't be opened or read."""
    os.makedirs('adir', exist_ok=True)
    bad = s.pick(['nofile', 'adir', 'adir/none', 'good.s/x', '', 'x' * 300])
    how = s.draw(3)
    files = {'good.s': ' fcb 1\n', MAIN: ' org $1000\n', 'data': 'abc'}
    n = s.i(0, 3)
    body = ' nop\n' * n
    k = 1 + n + 1
    where = None
    if how == 0:
        args = s.shuffle([MAIN, bad, 'good.s'][:s.i(2, 3)])
    else:
        op = {1: 'include', 2: 'includebin', 3: 'lib'}[how]
        if bad == '':
            bad = 'nofile'
        line = ' %s "%s"\n' % (op, bad)
        place = s.draw(3)
        args = [MAIN]
        if place == 0:
            files[MAIN] += body + line + ' nop\n'
            where = (MAIN, k)
        elif place == 1:
            files[MAIN] += 'mm macro\n' + body + line + ' endm\n nop\n mm\n'
            where = ('mm', n + 1)
        elif place == 2:
            files[MAIN] += ' include "part.s"\n'
            files['part.s'] = ' nop\n' + body + line
            where = ('part.s', n + 2)
        else:
            files[MAIN] += ' if 0\n' + body + line + ' endif\n fcb 1\n'
            where = ()
    out = ['-o', 'out']
    if s.draw(1):
        out += ['-l', 'out.lst']
    r = run.asm(env, out + args, files, ['out', 'out.lst'])
    msgs = parse(r)
    if where == ():
        if r.rc or msgs:
            raise Violation('file in a dead branch reported: %s' % r.stderr[:300])
    else:
        if r.rc != 1 or not any(m[0] == 'error' for m in msgs):
            raise Violation('exit status %d although %r cannot be read: %s' % (r.rc, bad, r.stderr[:300]))
        if where is None or bad in ('adir',):
            if bad and bad.encode() not in r.stderr:
                # a read error names what was being read
                if bad != 'adir':
                    raise Violation('%r is not named: %s' % (bad, r.stderr[:300]))
        elif where not in {(m[1], m[2]) for m in msgs}:
            raise Violation('%s:%d not named: %s' % (where + (r.stderr[:300],)))
        for m in msgs:
            if m[1] and (m[1], m[2]) != where and m[1] in files and m[1] != bad:
                raise Violation('another line blamed: %s' % r.stderr[:300])
    return Info(True, ['%s %s' % (['source', 'include', 'includebin', 'lib'][how], bad[:12])],
                ' '.join(args) + '\n' + files[MAIN], repr((args, sorted(files.items()), out)))


PARTS = [Part('text', text, 36000, 400000), Part('crowd', crowd, 900, 6000), Part('blame', blame, 29600, 200000), Part('unparsed', unparsed, 9900, 60000), Part('malformed', malformed, 14000, 150000), Part('far', far, 400, 2500), Part('warnings', warnings, 4900, 30000),
         Part('io', io, 8200, 40000), Part('inputs', inputs, 2640, 8000)]
ASSUME = ['within a macro expansion, a line is named by the macro and the line within its body (not counting lines '
          'without label or instruction)',
          'only messages of the most severe kind of error present are printed',
          'an erroneous line is not itself a conditional or an END, whose effect on the lines around it is then unknown']
