"""C19: command line options."""
import os
import re

from .. import isa as isa_mod, run
from . import c18
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('define/setdp/exec/passes: the option changes the result of assembling (or decides acceptance); spelling: at least two '
        'options; last/invalid: always; distinct by source and command line')

LONG = {'-B': '--bin', '-D': '--dragondos', '-C': '--coco', '-S': '--srec', '-H': '--hex', '-e': '--exec', '-9': '--6809',
        '-8': '--6809', '-3': '--6309', '-d': '--define', '-P': '--max-passes', '-o': '--output', '-l': '--listing',
        '-E': '--exports', '-s': '--symbols', '-q': '--quiet', '-v': '--verbose'}
OUTS = ['out', 'out.lst', 'out.sym', 'out.exp']
ALLOUT = ['-o', 'out', '-l', 'out.lst', '-s', 'out.sym', '-E', 'out.exp']


def _spell(s, v):
    k = s.draw(7)
    if k <= 1:
        return '%d' % v
    if k == 2:
        return '$%x' % v
    if k == 3:
        return '$%04X' % v
    if k == 4:
        return '0x%x' % v
    if k == 5:
        return '@%o' % v
    if k == 6:
        return '%' + bin(v)[2:]
    return '0b' + bin(v)[2:]


def asm(env, args, files, outs=OUTS):
    return run.asm(env, args, files, outs)


def same(what, a, b, outs=('out',), status=True):
    if a.rc != b.rc:
        raise Violation('%s: exit status %d and %d: %s' % (what, a.rc, b.rc, (a.stderr + b.stderr)[:300].decode('latin-1')))
    if a.rc == 0:
        for o in outs:
            if a.out[o] != b.out[o]:
                raise Violation('%s: %s differs\n%s\n%s' % (what, o, (a.out[o] or b'')[:200], (b.out[o] or b'')[:200]))


# -- define -----------------------------------------------------------------------

def define(s, env):
    """-d is an EQU before the first line."""
    g = Gen(s, feat=('macro', 'include', 'cond', 'local', 'section', 'org', 'setdp'))
    defs = {}
    for _ in range(s.i(1, 4)):
        n = g.name()
        v = s.w((3, s.i(0, 300)), (2, g.value()), (1, s.pick([0, 1, -1, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 1 << 40, -(1 << 40)])))
        defs[n] = 1 if s.p(25) else v
        g.syms.append(dict(name=n, kind='const', done=True, order=-1, value=v))
    lines = g.program(s.length(3, 12, 6), s.i(0, 4))
    names = list(defs)
    extra = []
    for n in names:
        k = s.draw(4)
        if k == 0:
            extra.append(Line(None, 'fdb', [ID(n)]))
        elif k == 1:
            extra += [Line(None, 'if', [s.pick([ID(n), ('o', '>', ID(n), I(s.i(0, 256)))])]), Line(None, 'fcb', [I(1)]),
                      Line(None, 'else'), Line(None, 'fdb', [ID(n)]), Line(None, 'endif')]
        elif k == 2:
            extra.append(Line(None, 'lda', [ID(n)]))
        elif k == 3:
            extra.append(Line(None, 'fqb', [('o', s.pick('+-*'), ID(n), I(s.i(1, 9)))]))
        else:
            extra.append(Line(None, 'ldx', [('attr', '#', ID(n))]))
    if s.p(15):
        extra.append(Line(lab(s.pick(names)), 'equ', [I(s.i(0, 5))]))   # redefinition
    files = {MAIN: extra + lines}
    files.update(g.files)
    style = style_for(s, g.isa)
    texts = {n: render.program(style, fl) for n, fl in files.items()}
    opts = []
    pre = []
    for n, v in defs.items():
        if v == 1 and s.draw(1):
            opts += s.pick([['-d', n], ['-d' + n], ['--define', n], ['--define=' + n]])
        else:
            t = '%s=%s' % (n, _neg(s, v))
            opts += s.pick([['-d', t], ['-d' + t], ['--define', t], ['--define=' + t]])
        pre.append('%s equ %d\n' % (n, v))
    twice = s.p(8)
    if twice:
        # a second definition is an error either way, whatever its value
        n = s.pick(names)
        v = s.pick([defs[n], defs[n] + 1, 0])
        opts += ['-d', '%s=%d' % (n, v)]
        pre.append('%s equ %d\n' % (n, v))
    isa = ['-3'] if g.isa == 6309 else []
    fmt = ['-' + fmt_for(s)]
    texts['pre.s'] = ''.join(pre)
    k = s.draw(2)
    if k == 0:
        args = opts + isa + fmt + ALLOUT + [MAIN]
    elif k == 1:
        args = isa + fmt + ALLOUT + [MAIN] + opts
    else:
        args = isa + fmt + opts + ALLOUT + [MAIN]
    a = asm(env, args, texts)
    b = asm(env, isa + fmt + ALLOUT + ['pre.s', MAIN], texts)
    same('-d and EQU', a, b, ('out', 'out.exp'))
    if a.rc == 0:
        sa, sb = [sorted(x.out['out.sym'].split(b'\n')) for x in (a, b)]
        if sa != sb:
            raise Violation('-d and EQU: symbols differ\n%s\n%s' % (sa, sb))
        la = a.out['out.lst'].split(b'\n')
        lb = b.out['out.lst'].split(b'\n')[len(pre):]
        if la != lb:
            raise Violation('-d and EQU: listing differs')
    elif not twice and len(a.stderr.split(b'\n')) != len(b.stderr.split(b'\n')):
        raise Violation('-d and EQU: messages differ:\n%s\n%s' % (a.stderr[:300], b.stderr[:300]))
    # without the definitions?
    c = asm(env, isa + fmt + ALLOUT + [MAIN], texts)
    changed = c.rc != a.rc or c.out['out'] != a.out['out']
    return Info(changed, ['rc %d' % a.rc], ' '.join(args) + '\n' + texts[MAIN], repr((args, sorted(texts.items()))), evals=3)


def _neg(s, v):
    return '-' + _spell(s, -v) if v < 0 else _spell(s, v)


# -- setdp ------------------------------------------------------------------------

def setdp(s, env):
    """--setdp is a SETDP at the start of every section."""
    v = s.pick([0, 1, 0x10, 0x20, 0x80, 0xff, -1, -5, 0x100, 0x120, 0x1ff])
    page = v & 0xff if v >= 0 else s.pick([0, 0x20])
    secs = s.sample(['CODE', 'DATA', 'bss', 'x', 'two words', 'a.b'], s.i(1, 4))
    mem = isa_mod_mem()
    lines = []          # (text, section started)
    seen = set()
    cur = 'CODE'
    n = 0

    def operand():
        k = s.draw(5)
        if k == 0:
            return '$%04x' % (page << 8 | s.i(0, 255))
        if k == 1:
            return '%d' % s.i(0, 0xffff)
        if k == 2:
            return s.pick(['near', 'far', 'near+1', 'l%d' % s.i(0, max(0, n - 1)) if n else 'near'])
        if k == 3:
            return s.pick('<>') + 'near'
        if k == 4:
            return '#%d' % s.i(0, 255)
        return '%d,x' % s.i(0, 40)

    text = ['near equ $%04x' % (page << 8 | s.i(0, 254)), 'far equ $%04x' % (s.i(0, 0xffff))]
    body = [(None, None)]
    for _ in range(s.length(3, 20, 9)):
        k = s.draw(7)
        if k <= 3:
            body.append((' %s %s' % (s.pick(mem), operand().replace('#', '')), None))
        elif k == 4:
            body.append(('l%d nop' % n, None))
            n += 1
        elif k == 5:
            cur = s.pick(secs)
            body.append((' section "%s"' % cur, cur))
        elif k == 6:
            body.append((' setdp %s' % s.pick(['0', '-1', str(page), '$%x' % (page ^ 1)]), None))
        else:
            body.append((' org $%04x' % s.i(0x1000, 0x7000), None))
    a, b = list(text), list(text)
    b.append(' setdp %d' % v)
    started = {'CODE'}
    for t, sec in body:
        if t is None:
            continue
        if 'l%d' % n in t:
            t = t.replace('l%d' % n, 'near')
        a.append(t)
        b.append(t)
        if sec and sec not in started:
            started.add(sec)
            b.append(' setdp %d' % v)
    opt = s.pick([['--setdp', _neg(s, v)], ['--setdp=' + _neg(s, v)]])
    ta, tb = '\n'.join(a) + '\n', '\n'.join(b) + '\n'
    args = ['-S', '-o', 'out', '-s', 'out.sym']
    ra = asm(env, args + opt + ['a.s'], {'a.s': ta})
    rb = asm(env, args + ['b.s'], {'b.s': tb})
    same('--setdp %s' % v, ra, rb, ('out', 'out.sym'))
    rc = asm(env, args + ['a.s'], {})
    return Info(ra.out['out'] != rc.out['out'], ['page %s' % ('set' if v >= 0 else 'negative'), 'rc %d' % ra.rc],
                ' '.join(opt) + '\n' + ta, ta + repr(opt), evals=3)


_mem = []


def isa_mod_mem():
    if not _mem:
        t = isa_mod.table(6809)
        _mem.extend(n for n in ('lda', 'ldb', 'ldx', 'sta', 'stx', 'addd', 'jmp', 'inc', 'clr', 'cmpy', 'jsr', 'eora', 'tst')
                    if n in t)
    return _mem


# -- exec -------------------------------------------------------------------------

def exec_(s, env):
    """-e overrides END."""
    base = s.pick([0x1000, 0x100, 0, 0xf000, 0x7ff0])
    lines = [' org $%x' % base, 'start nop', 'entry equ $%x' % s.i(0, 0xffff), ' fill 1,%d' % s.i(1, 80), 'other fdb entry',
             'neg equ other-start']
    end = s.pick(['', ' end\n', ' end start\n', ' end other\n', ' end $1234\n', ' end entry+1\n'])
    val = s.pick(['start', 'entry', 'other', 'neg', None, None])
    if val is None:
        v = s.w((2, s.i(0, 0xffff)), (1, s.pick([0, 1, 255, 256, 0x7fff, 0x8000, 0xffff])))
        val = _spell(s, v)
        src = '%d' % v
    else:
        src = val
    opt = s.pick([['-e', val], ['-e' + val], ['--exec', val], ['--exec=' + val]])
    fmt = ['-' + s.pick('DCSHB')]
    body = '\n'.join(lines) + '\n'
    args = fmt + ALLOUT
    k = s.draw(1)
    a = asm(env, (opt + args if k else args + opt) + ['a.s'], {'a.s': body + end})
    b = asm(env, args + ['b.s'], {'b.s': body + ' end %s\n' % src})
    if a.rc or b.rc:
        raise Violation('rejected: %s' % (a.stderr + b.stderr)[:300])
    same('-e %s and END %s' % (val, src), a, b, ('out', 'out.sym', 'out.exp'))
    d = asm(env, args + ['a.s'], {})
    # the option only concerns the EXEC address
    if d.out['out.lst'] != a.out['out.lst'] or d.out['out.sym'] != a.out['out.sym']:
        raise Violation('-e changes the listing or the symbols')
    if fmt == ['-B'] and d.out['out'] != a.out['out']:
        raise Violation('-e changes a raw binary')
    return Info(fmt != ['-B'], ['format ' + fmt[0], 'end' + end[4:10].rstrip()], ' '.join(opt + fmt) + '\n' + body + end,
                repr((opt, fmt, body, end)), evals=3)


# -- passes -----------------------------------------------------------------------

def passes(s, env):
    """-P limits passes: enough is enough, and too few is an error."""
    k = s.draw(2)
    if k == 0:
        n = s.w((9, s.i(1, 25)), (1, s.i(26, 253)))
        lines = [org(0x1000)] + [Line(lab('c%d' % i), 'equ', [('o', '+', ID('c%d' % (i + 1)), I(s.i(0, 3)))]) for i in range(n)]
        lines += [Line(lab('c%d' % n), 'equ', [I(s.i(0, 90))]), Line(None, 'fdb', [ID('c0')])]
    elif k == 1:
        n = s.i(1, 20)
        lines = [org(0x1000), Line(None, 'rmb', [ID('r0')])]
        for i in range(n):
            lines.append(Line(lab('r%d' % i), 'equ', [ID('r%d' % (i + 1))]))
        lines += [Line(lab('l'), 'fdb', [ID('l')]), Line(lab('r%d' % n), 'equ', [I(s.i(0, 9))])]
    else:
        g = Gen(s, feat=('org', 'local', 'section', 'str'))
        lines = g.program(s.length(4, 14, 8), s.i(2, 8))
    case = Case({MAIN: lines}, isa=g.isa if k == 2 else 6809, max_passes=255)
    case.render(render.Style(case.isa))
    o = case.model()
    if not o.ok or o.overlap:
        raise Discard('not accepted at all')
    need = o.passes
    limit = s.w((2, need), (2, need - 1), (1, need + 1), (1, s.i(2, 255)), (1, s.pick([2, 3, 11, 12, 13, 255])))
    limit = min(255, max(2, limit))
    spelt = s.pick(['%d', '%d', '0x%x', '0%o']) % limit
    opt = s.pick([['-P', spelt], ['-P' + spelt], ['--max-passes', spelt], ['--max-passes=' + spelt]])
    default = s.p(20)
    args = ['-S'] + (['-3'] if case.isa == 6309 else []) + ALLOUT + ([] if default else opt) + [MAIN]
    if default:
        limit = 12
    r = asm(env, args, case.write())
    if need <= limit:
        if r.rc:
            raise Violation('needs %d passes, rejected with %d allowed: %s' % (need, limit, r.stderr[:200]))
        core.compare_image('S', r.out['out'], o)
    elif r.rc == 0:
        raise Violation('needs %d passes, accepted with %d allowed' % (need, limit))
    return Info(True, ['need %d' % min(need, 14), 'enough' if need <= limit else 'too few'],
                ' '.join(args) + '\n' + case.source(), repr(args) + case.digest())


# -- spelling ---------------------------------------------------------------------

PROG = ''' org $2000
start lda <DEF0
 ldb val
 lbra start
 tfr a,x
val fdb DEF0,DEF1
t1 equ "str"
mac macro
 fcb \\1
 endm
 mac 5
 export mac,val,t1
 end val
'''


def options(s):
    """[(option, value)] in canonical order."""
    o = []
    if s.p(70):
        o.append((s.pick(['-B', '-D', '-C', '-S', '-H']), None))
    if s.p(40):
        o.append((s.pick(['-3', '-9', '-8']), None))
    if s.p(40):
        o.append((s.pick(['-q', '-v']), None))
    if s.p(40):
        o.append(('-e', s.pick(['start', '$1234', '99', 'nowhere'])))
    for n in ('DEF0', 'DEF1'):
        if s.p(75):
            o.append(('-d', n + s.pick(['', '=5', '=$2010', '=-1'])))
    if s.p(40):
        o.append(('--setdp', s.pick(['0', '$20', '-1', '32'])))
    if s.p(30):
        o.append(('-P', s.pick(['2', '3', '40'])))
    for f, n in (('-o', 'out'), ('-l', 'out.lst'), ('-s', 'out.sym'), ('-E', 'out.exp')):
        if s.p(80):
            o.append((f, n))
    return o


def rewrite(s, opts):
    """The same options, spelt and ordered differently."""
    out = []
    order = s.shuffle(opts)
    cluster = ''
    for f, v in order:
        k = s.draw(4)
        lf = LONG.get(f, f)
        if v is None:
            if k <= 1:
                out.append([f])
            elif k == 2:
                out.append([lf])
            elif k == 3:
                # unique abbreviation
                out.append([lf[:-1]] if lf not in ('--6809', '--6309', '--bin', '--hex') else [lf])
            else:
                out.append([f])
        elif f.startswith('--') or k >= 2:
            out.append([lf, v] if k % 2 else [lf + '=' + v])
        else:
            out.append([f, v] if k else [f + v])
    # cluster two short options
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if len(a) == 1 and len(a[0]) == 2 and b[0][0] == '-' and b[0][1] != '-' and s.draw(1):
            out[i:i + 2] = [[a[0] + b[0][1:]] + b[1:]]
        i += 1
    # the source anywhere among them
    flat = list(out)
    pos = s.draw(len(flat)) if s.draw(1) else len(flat)
    if pos == len(flat) and s.draw(1):
        flat.append(['--'])
        flat.append([MAIN])
    else:
        flat.insert(pos, [MAIN])
    return [x for o in flat for x in o]


def spelling(s, env):
    opts = options(s)
    a = [x for f, v in opts for x in ([f] if v is None else [f, v])] + [MAIN]
    b = rewrite(s, opts)
    files = {MAIN: PROG}
    ra, rb = asm(env, a, files), asm(env, b, files)
    if (ra.rc, ra.stderr, ra.stdout) != (rb.rc, rb.stderr, rb.stdout):
        raise Violation('%s\nand %s\ndiffer: %d %s / %d %s' % (' '.join(a), ' '.join(b), ra.rc, ra.stderr[:200], rb.rc, rb.stderr[:200]))
    for o in OUTS:
        if ra.out[o] != rb.out[o]:
            raise Violation('%s\nand %s\ndiffer in %s' % (' '.join(a), ' '.join(b), o))
    for f, n in opts:
        if f in ('-o', '-l', '-s', '-E') and ra.rc == 0 and ra.out[n] is None:
            raise Violation('%s %s not written' % (f, n))
    for f, n in (('-o', 'out'), ('-l', 'out.lst'), ('-s', 'out.sym'), ('-E', 'out.exp')):
        if (f, n) not in opts and ra.out[n] is not None:
            raise Violation('%s written without being requested' % n)
    return Info(len(opts) > 1, ['rc %d' % ra.rc], ' '.join(a) + '\n' + ' '.join(b), repr((a, b)), evals=2)


def last(s, env):
    """Later format and ISA options win; what each format and ISA is."""
    fm = [s.pick(['-B', '-D', '-C', '-S', '-H', '--bin', '--dragondos', '--coco', '--srec', '--hex']) for _ in range(s.i(0, 5))]
    im = [s.pick(['-3', '-9', '-8', '--6309', '--6809']) for _ in range(s.i(0, 4))]
    is63 = bool(im) and im[-1] in ('-3', '--6309')
    lines = [org(s.i(0x100, 0x7000))]
    for _ in range(s.i(1, 3)):
        lines.append(Line(None, 'fdb', [I(s.i(0, 0xffff)) for _ in range(s.i(1, 30))]))
        if s.draw(1):
            lines.append(Line(None, 'rmb', [I(s.i(1, 20))]))
    only = s.draw(1)
    if only:
        lines.insert(1, Line(None, *s.pick([('sexw', None), ('clre', None), ('ldq', [('attr', '#', I(s.i(0, 1 << 31)))]),
                                           ('tfr', [reg('w'), reg('v')]), ('ldmd', [('attr', '#', I(1))])])))
    lines.append(fcb(1))
    case = Case({MAIN: lines}, isa=6309)
    case.render(style_for(s, 6309))
    o = case.model()
    rest = ['-o', 'out']
    args = [MAIN]
    # keep the order within each group
    groups = [list(fm), list(im), [rest]]
    seq = []
    while any(groups):
        gq = s.pick([x for x in groups if x])
        x = gq.pop(0)
        seq += x if isinstance(x, list) else [x]
    r = run.asm(env, seq + args, case.write(), ['out'])
    if only and not is63:
        if r.rc == 0:
            raise Violation('6309 instruction accepted with %s' % ' '.join(im or ['no ISA option']))
        return Info(True, ['rejected'], ' '.join(seq), repr(seq) + case.digest())
    if r.rc:
        raise Violation('rejected with %s: %s' % (' '.join(seq), r.stderr[:300]))
    names = {'-B': 'B', '-D': 'D', '-C': 'C', '-S': 'S', '-H': 'H', '--bin': 'B', '--dragondos': 'D', '--coco': 'C', '--srec': 'S',
             '--hex': 'H'}
    core.compare_image(names[fm[-1]] if fm else 'B', r.out['out'], o)
    return Info(True, ['format %s' % (fm[-1] if fm else 'default'), 'isa %s' % (im[-1] if im else 'default')],
                ' '.join(seq) + '\n' + case.source(), repr(seq) + case.digest())


def repeats(s, env):
    """Given again, an option that can have one value has the later one."""
    opts = options(s)
    if not opts:
        raise Discard('no options')
    a = [x for f, v in opts for x in ([f] if v is None else [f, v])] + [MAIN]
    groups = [['-B', '-D', '-C', '-S', '-H'], ['-3', '-9', '-8'], ['-q', '-v']]
    vals = {'-e': ['5', 'val', '$ffff'], '--setdp': ['1', '-1', '$20', '255'], '-P': ['2', '3', '40', '255'],
            '-o': ['first', 'out2'], '-l': ['first', 'lst2'], '-s': ['first'], '-E': ['first', 'exp2']}
    out = list(opts)
    early = set()
    n = 0
    for f, v in opts:
        if f == '-d' or s.p(40):
            continue
        for _ in range(s.i(1, 3)):
            i = s.draw(next(j for j, o in enumerate(out) if o == (f, v)))
            if v is None:
                g = next(g for g in groups if f in g)
                out.insert(i, (s.pick(g), None))
                # a later one of the same spelling must remain the last
                j = max(j for j, o in enumerate(out) if o[0] in g)
                out[j] = (f, None)
            else:
                w = s.pick(vals[f] + [v])
                out.insert(i, (f, w))
                if f in ('-o', '-l', '-s', '-E'):
                    early.add(w)
            n += 1
    b = [x for f, v in out for x in ([LONG.get(f, f) if s.draw(1) else f] + ([] if v is None else [v]))] + [MAIN]
    early = sorted(early - {v for f, v in opts})
    text = PROG + s.pick(['', ' tfr a,x\n', ' lda ,-y\n lbra start\n'])
    files = {MAIN: text.replace(' end val\n', '', 1)}
    ra = run.asm(env, a, files, OUTS)
    rb = run.asm(env, b, files, OUTS + early)
    if (ra.rc, ra.stderr, ra.stdout) != (rb.rc, rb.stderr, rb.stdout):
        raise Violation('%s\nand %s\ndiffer: %d %s / %d %s' % (' '.join(a), ' '.join(b), ra.rc, ra.stderr[:200], rb.rc, rb.stderr[:200]))
    for o in OUTS:
        if ra.out[o] != rb.out[o]:
            raise Violation('%s\nand %s\ndiffer in %s' % (' '.join(a), ' '.join(b), o))
    for o in early:
        if rb.out[o] is not None:
            raise Violation('%s: %s written' % (' '.join(b), o))
    return Info(n > 0, ['%d repeated' % min(n, 9)], ' '.join(a) + '\n' + ' '.join(b), repr((a, b, text)), evals=2)


# -- invalid ----------------------------------------------------------------------

def badnum(s):
    k = s.draw(6)
    if k <= 1:
        good = _neg(s, s.i(-99, 300))
        return good + s.pick(['z', ' ', 'g', '.', '.5', '+1', '=', '-', '_', '$', '%', 'x', '*2', ';'])
    if k == 2:
        return s.pick(['', '-', '$', '@', '%', '0x', '0b', '-$', '-0x', '$-', '--'])
    if k == 3:
        return s.pick(['%2', '@8', '0b2', '%12', '@19', '0bx', '0xg', '$g', '%-1', '$ 1', '@+1', '% 1'])
    if k == 4:
        return s.pick(['x', 'zz', '"1"', "'a", '#1', '<1', '(1)', '*', '!1', '~1', '+1', ' 1', '\\1', '/1/'])
    if k == 5:
        return s.pick(['9223372036854775808', '99999999999999999999', '-99999999999999999999', '$10000000000000000',
                       '0x8000000000000000000', '@7777777777777777777777777'])
    return s.pick(['1e3', '1,2', '12 34', '0x12h', '12h', '1_000'])


def invalid(s, env):
    """Invalid option values are rejected."""
    k = s.draw(6)
    if k <= 1:
        opt = ['-d', 'DEF0=' + badnum(s)] if s.draw(1) else ['--define=DEF0=' + badnum(s)]
        what = 'define'
    elif k == 2:
        v = badnum(s)
        opt = s.pick([['--setdp', v], ['--setdp=' + v]])
        what = 'setdp'
    elif k == 3:
        v = s.pick(['0', '1', '-1', '-2', '256', '257', '300', '1000', '65538', '4294967298', '99999999999999999999', 'x', '', '5x', '2.5',
                    '0x', '3 ', '12,', 'two', '--'])
        opt = s.pick([['-P', v], ['--max-passes=' + v], ['--max-passes', v]])
        what = 'max-passes'
    elif k == 4:
        opt = [s.pick(['-x', '--nosuch', '-Z', '--outputs', '--dp=0', '-W', '--bin=1', '--quiet=0', '--6809=1', '--format', '-7', '-p'])]
        what = 'unknown'
    elif k == 5:
        v = s.pick(['nowhere', 'Start', 'VAL', 'undef.', 'start ', 'st', '$12zz', '12zz', '%2', '0x', '$'])
        opt = s.pick([['-e', v], ['--exec=' + v]])
        what = 'exec'
    else:
        opt = s.pick(['-d', '--define', '--setdp', '-P', '--max-passes', '-e', '--exec', '-o', '-l', '-s', '-E', '--output',
                      '--listing', '--exports', '--symbols'])
        files = {MAIN: PROG}
        args = ['-d', 'DEF0', '-d', 'DEF1', MAIN, opt]
        r = asm(env, args, files)
        if r.rc != 1 or not r.stderr:
            raise Violation('%s without its value: exit status %d' % (opt, r.rc))
        return Info(True, ['missing value'], ' '.join(args), repr(args))
    good = [(f, v) for f, v in options(s) if f not in ('-d', '--setdp', '-P', '-e')]
    defs = ['-d', 'DEF1'] + ([] if what == 'define' else ['-d', 'DEF0'])
    args = [x for f, v in good for x in ([f] if v is None else [f, v])]
    if s.p(20):
        args += ['-P', '5']
    fine = args + defs + [MAIN]
    args = (args + opt if s.draw(1) else opt + args) + defs + [MAIN]
    r = asm(env, args, {MAIN: PROG})
    if r.rc != 1:
        raise Violation('invalid %s accepted: %s' % (what, ' '.join(repr(x) for x in opt)))
    if not r.stderr.strip():
        raise Violation('invalid %s rejected without a message' % what)
    # the same without the invalid option is fine
    if what != 'define':
        r2 = asm(env, fine, {MAIN: PROG})
        if r2.rc:
            raise Violation('valid options rejected: %s: %s' % (' '.join(fine), r2.stderr[:200]))
    return Info(True, [what], ' '.join(args), repr(args), evals=2)


def misc(s, env):
    """Information options, no sources, several sources."""
    k = s.draw(3)
    if k == 0:
        o = s.pick(['--help', '--version'])
        args = s.pick([[o], [o, MAIN], ['-S', o], ['-o', 'out', o, MAIN]])
        r = asm(env, args, {MAIN: PROG})
        if r.rc or not r.stdout.strip() or r.out['out'] is not None:
            raise Violation('%s: exit status %d' % (' '.join(args), r.rc))
    elif k == 1:
        args = [x for f, v in options(s) if f != '-e' for x in ([f] if v is None else [f, v])]
        r = asm(env, args, {})
        if r.rc != 1 or not r.stderr:
            raise Violation('no source files, exit status %d' % r.rc)
    else:
        # a value that looks like an option is a value; -- ends options
        name = s.pick(['-S', '--bin', '-x.s', '--'])
        if k == 2:
            args = ['-B', '-o', 'out', '--', name]
            r = asm(env, args, {name: ' fcb 7\n'})
            if r.rc or r.out['out'] != b'\x07':
                raise Violation('source %s after --: %s' % (name, r.stderr[:200]))
        else:
            args = ['-B', '-l', name, '-o', 'out', MAIN]
            r = run.asm(env, args, {MAIN: ' fcb 7\n'}, ['out', name])
            if r.rc or r.out['out'] != b'\x07' or not r.out[name]:
                raise Violation('listing named %s: %s' % (name, r.stderr[:200]))
        os.unlink(name)
    return Info(True, ['kind %d' % k], ' '.join(args), repr(args))


def many(s, env):
    """Any number of -d options, of names of any length, in any order."""
    n = s.pick([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    stem = s.pick(['v', 'name_', 'a.b', 'X' * 30, 'y_' * 32, 'z' * 126])
    opts = []
    vals = []
    for i in range(n):
        v = s.pick([i, -i, i * 257, i << 20, 1])
        nm = '%s%d' % (stem, i)
        vals.append((nm, v))
        t = nm if v == 1 and s.draw(1) else '%s=%s' % (nm, _neg(s, v))
        opts.append(s.pick([['-d', t], ['-d' + t], ['--define', t], ['--define=' + t]]))
    opts = s.shuffle(opts)
    lines = [Line(None, 'fqb', [ID(x)]) for x, _ in vals if n < 30 or s.p(40)]
    for x, v in s.sample(vals, min(3, n)):
        lines += [Line(None, 'if', [('o', '==', ID(x), I(v))]), fcb(1), Line(None, 'else'), fcb(2), Line(None, 'endif')]
    miss = s.p(10)
    if miss:
        lines.append(Line(None, 'fdb', [ID('%s%d' % (stem, n))]))
    lines.append(fcb(1))
    texts = {MAIN: render.program(render.Style(), lines)}
    cut = s.i(0, len(opts))
    flat = [x for o in opts[:cut] for x in o]
    more = [x for o in opts[cut:] for x in o]
    pre = s.shuffle(['%s equ %d\n' % (x, v) for x, v in vals])
    texts['pre.s'] = ''.join(pre)
    a = asm(env, flat + ['-S'] + ALLOUT + [MAIN] + more, texts)
    b = asm(env, ['-S'] + ALLOUT + ['pre.s', MAIN], texts)
    same('%d -d and EQU' % n, a, b, ('out', 'out.exp'))
    if a.rc != miss:
        raise Violation('%d -d give status %d: %s' % (n, a.rc, a.stderr[:300]))
    if a.rc == 0:
        sa, sb = [sorted(x.out['out.sym'].split(b'\n')) for x in (a, b)]
        if sa != sb:
            raise Violation('%d -d and EQU: symbols differ' % n)
        if a.out['out.lst'].split(b'\n') != b.out['out.lst'].split(b'\n')[n:]:
            raise Violation('%d -d and EQU: listing differs' % n)
    return Info(True, ['%d+ definitions' % (n // 50 * 50)], ' '.join(flat + more) + '\n' + texts[MAIN], None, evals=2)


PARTS = [Part('text', textcases.part(opts=True), 8000, 100000), Part('many', many, 700, 5000), Part('define', define, 9800, 60000), Part('setdp', setdp, 9800, 60000), Part('exec', exec_, 5600, 20000),
         Part('passes', passes, 8400, 60000), Part('spelling', spelling, 11200, 80000), Part('last', last, 8400, 50000),
         Part('repeats', repeats, 7000, 40000),
         Part('invalid', invalid, 8400, 40000), Part('misc', misc, 840, 3360), Part('verbosity', c18.warnings, 2240, 10000)]
ASSUME = ['a number in an option is decimal, $hex, 0xhex, @octal, %binary or 0bbinary, optionally negated',
          'a name is not both given with -d and defined by the program other than in error']
