"""C20: same input, same output; requests don't interfere with each other."""
import os
import shutil

from .. import run
from . import c17, c18
from .common import *   # noqa: F401,F403

VARIANTS = ('plain', 'msan')
RULE = ('requests: the program assembles and at least two files are compared; repeat/memory: something other than lines that do '
        'not parse happens; unused: the program assembles to at least one byte; distinct by source and options')

FILES = {'-o': 'out', '-l': 'out.lst', '-s': 'out.sym', '-E': 'out.exp'}
OUTS = list(FILES.values())


# -- sources ------------------------------------------------------------------------

def valid(s):
    g = Gen(s, feat=ALL)
    lines = g.program(s.length(3, 20, 9), s.i(0, 7))
    names = [d['name'] for d in g.syms if d['kind'] in ('label', 'const', 'expr', 'str') and d['done']]
    names += [m['name'] for m in g.macros if isinstance(m, dict) and 'name' in m]
    if names and s.p(60):
        lines.append(Line(None, 'export', [ID(n) for n in s.sample(names, s.i(1, min(4, len(names))))]))
    files = {MAIN: lines}
    files.update(g.files)
    return files, g


def source(s):
    """(texts, options, main files, class)"""
    k = s.w((6, 0), (3, 1), (3, 2), (2, 3), (1, 4), (1, 5))
    isa = []
    if k <= 2:
        files, g = valid(s)
        isa = ['-3'] if g.isa == 6309 else []
        if k == 1:
            for _ in range(s.i(1, 4)):
                f = s.pick(sorted(files))
                files[f].insert(s.pick(c18.live_spots(files[f]) or [0]), c18.warn_line(s, g.isa))
        st = style_for(s, g.isa)
        texts = {n: render.program(st, fl) for n, fl in files.items()}
        if k == 2:
            for _ in range(s.length(1, 4, 2)):
                n = s.pick(sorted(texts))
                texts[n] = c17.rebytes(s, texts[n])
    elif k == 3:
        lines = []
        for _ in range(s.length(1, 12, 5)):
            if s.p(40):
                lines.append(s.pick(c17.FRAME))
            lines.append(c17.typed_line(s))
        texts = {MAIN: '\n'.join(lines) + '\n', 'a.s': ' fcb 1\n', 'b.s': 'binary'}
    elif k == 4:
        case = Case({MAIN: c18.io_program(s)})
        case.render(render.Style())
        texts = case.texts
    else:
        # wide apart, backwards and overlapping blocks
        t = []
        for i in range(s.i(1, 8)):
            t.append(' org $%x\nb%d fill %d,%d\n' % (s.pick([0, 0x100, 0x110, 0x4000, 0xff00, 0xfff8, s.i(0, 65535)]), i, i + 1,
                                                   s.pick([1, 4, 8, 16, 300])))
            if s.p(30):
                t.append(' section "s%d"\n' % s.i(0, 3))
        t.append(' export b0,b%d\n' % s.i(0, 8))
        if s.draw(1):
            t.append(' end %s\n' % s.pick(['b0', '$1234', '-1', '$12345', 'b0*3']))
        texts = {MAIN: ''.join(t)}
    args = list(isa)
    if s.p(15):
        args += ['-d', s.pick(['DEF', 'DEF=5', 'k1=3', 'zed=-1'])]
    if s.p(10):
        args.append(s.pick(['-q', '-v']))
    if s.p(15):
        args += ['-e', s.pick(['0', '$1234', '65535', '70000', '-1', 'b0', 'undefd', 'go', 'nosuch'])]
    if s.p(10):
        args += ['--setdp', s.pick(['0', '$20', '-1'])]
    if s.p(5):
        args += ['-P', s.pick(['2', '3', '30'])]
    return texts, args, [MAIN], ['valid', 'warned', 'mutated', 'typed', 'large', 'blocks'][k]


def fresh(texts):
    """Nothing of earlier cases is left to be included."""
    for n in os.listdir('.'):
        shutil.rmtree(n) if os.path.isdir(n) and not os.path.islink(n) else os.unlink(n)
    texts.setdefault('a.s', ' fcb 1\n')
    texts.setdefault('b.s', 'binary')


def errors(r):
    return frozenset(l for l in r.stderr.split(b'\n') if b'error' in l.split(b':')[0])


def show(args, r):
    return '%s -> %d %s' % (' '.join(args), r.rc, r.stderr[:200].decode('latin-1'))


# -- requests -----------------------------------------------------------------------

def requests(s, env):
    """What one request gives, alone, is what it gives among others."""
    texts, base, main, cls = source(s)
    fresh(texts)
    run.write_files(env, texts)

    def go(req):
        a = list(base)
        for f in req:
            a += ['-' + f[2]] if f[0] == 'o' else []
            a += ['-' + f[0], FILES['-' + f[0]]]
        a += main
        return a, run.asm(env, a, None, OUTS)

    # nothing requested at all
    a0, r0 = go([])
    if any(r0.out[o] is not None for o in OUTS):
        raise Violation('file written without being requested: %s' % show(a0, r0))
    fm = s.sample('BDCSH', s.i(1, 3))
    if '-e' in base and 'B' not in fm:
        fm.append('B')
    singles = {}
    for f in ['o ' + c for c in fm] + ['l', 's', 'E']:
        a, r = singles[f] = go([f])
        own = FILES['-' + f[0]]
        for o in OUTS:
            if o != own and r.out[o] is not None:
                raise Violation('%s written without being requested: %s' % (o, show(a, r)))
        if r0.rc:
            if (r.rc, r.stderr) != (r0.rc, r0.stderr):
                raise Violation('requests change the verdict\n%s\n%s' % (show(a0, r0), show(a, r)))
        elif r.rc == 0:
            if r.stderr != r0.stderr:
                raise Violation('requests change the messages\n%s\n%s' % (show(a0, r0), show(a, r)))
            if r.out[own] is None:
                raise Violation('%s not written: %s' % (own, show(a, r)))
        elif not errors(r):
            raise Violation('no error message: %s' % show(a, r))
    if '-e' in base and r0.rc == 0 and singles['o B'][1].rc:
        # a plain binary has no EXEC address it could fail to represent
        i = base.index('-e')
        p = run.asm(env, base[:i] + base[i + 2:] + ['-B', '-o', 'out'] + main, None, OUTS)
        if p.rc == 0:
            raise Violation('EXEC option only refused when an image is requested\n%s\n%s' % (show(a0, r0), show(*singles['o B'])))
    n = 0
    for _ in range(2):
        req = ['o ' + s.pick(fm)] if s.p(80) else []
        req += [f for f in 'lsE' if s.p(70)]
        req = s.shuffle(req)
        if len(req) < 2:
            continue
        a, r = go(req)
        n += 1
        if r0.rc:
            if (r.rc, r.stderr) != (r0.rc, r0.stderr):
                raise Violation('requests change the verdict\n%s\n%s' % (show(a0, r0), show(a, r)))
            continue
        bad = [f for f in req if singles[f][1].rc]
        if (r.rc != 0) != bool(bad):
            raise Violation('together %s\nalone:\n%s' % (show(a, r), '\n'.join(show(*singles[f]) for f in req)))
        want = frozenset().union(*[errors(singles[f][1]) for f in bad])
        # of different levels of severity, only the highest is printed
        if not errors(r) <= want or bool(bad) != bool(errors(r)):
            raise Violation('together %s\nalone:\n%s' % (show(a, r), '\n'.join(show(*singles[f]) for f in req)))
        if not bad and r.stderr != r0.stderr:
            raise Violation('requests change the messages\n%s\n%s' % (show(a0, r0), show(a, r)))
        for f in req:
            own = FILES['-' + f[0]]
            if f not in bad and r.out[own] != singles[f][1].out[own]:
                raise Violation('%s is different when requested with others: %s\nalone: %s\n--- together\n%s\n--- alone\n%s' % (
                    own, show(a, r), show(*singles[f]), (r.out[own] or b'')[:400].decode('latin-1'),
                    (singles[f][1].out[own] or b'')[:400].decode('latin-1')))
    return Info(n > 0 and not r0.rc, [cls, 'rc %d' % r0.rc], ' '.join(base) + '\n' + '\n'.join(texts.values()),
                repr((sorted(texts.items()), base, fm)), evals=n + 4 + len(fm))


# -- repetition -----------------------------------------------------------------------

ENVS = [{'MALLOC_PERTURB_': '85'}, {'MALLOC_PERTURB_': '170'}, {'MALLOC_PERTURB_': '255'}, {'MALLOC_PERTURB_': '1'},
        {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}, {'GLIBC_TUNABLES': 'glibc.malloc.perturb=204:glibc.malloc.mmap_threshold=64'},
        {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'POSIX', 'LANG': 'de_DE'}, {'LC_ALL': 'tr_TR.UTF-8'}, {'LC_NUMERIC': 'de_DE.UTF-8', 'LC_ALL': ''},
        {'HOME': '/', 'TMPDIR': '/nonexistent', 'TZ': 'Asia/Tokyo'}, {'POSIXLY_CORRECT': '1'}, {'COLUMNS': '10', 'TERM': 'dumb'},
        {'TERM': 'xterm-256color', 'LINES': '3'}, {'X' * 1000: 'y' * 5000}, {'ASM6809': '-v', 'ASMFLAGS': '-3', 'POSIX': '1'},
        {'DEF': '7', 'k1': '9', 'l1': '5'}, {'V%d' % i: 'x' * 100 for i in range(200)}]


def repeat(s, env):
    """Again: other environment, other directory, other memory, over old files."""
    texts, base, main, cls = source(s)
    fresh(texts)
    if s.p(60):
        args = base + ['-' + fmt_for(s), '-o', 'out', '-l', 'out.lst', '-s', 'out.sym', '-E', 'out.exp'] + main
    else:
        args = base + ['-' + fmt_for(s)] + [x for f in s.sample(sorted(FILES), s.i(1, 4)) for x in (f, FILES[f])] + main
    a = run.asm(env, args, texts, OUTS)
    tags = []
    for _ in range(3):
        k = s.draw(5)
        old = None
        if k == 0:
            e, where = {}, '.'
            tags.append('again')
        else:
            e, where = s.pick(ENVS), '.'
            tags.append(sorted(e)[0][:12])
        if k >= 4:
            where = s.pick(['sub', 'sub/deeper', 'a name with spaces', 'x' * 200, 'src'])
            tags.append('directory')
        if k >= 3:
            old = s.pick([b'', b'x', b'old content\n' * 400, b'\xff' * 70000])
            tags.append('old files')
        home = os.getcwd()
        if where != '.':
            os.makedirs(where, exist_ok=True)
            os.chdir(where)
        try:
            if old is not None:
                run.write_files(env, {o: old for o in OUTS})
            b = run.asm(env, args, texts, OUTS, extra_env=e, keep=old is not None)
            if old is not None:
                for o in OUTS:
                    # not requested, or not written: as it was
                    if b.out[o] == old and a.out[o] is None:
                        b.out[o] = None
        finally:
            os.chdir(home)
        if (a.rc, a.stderr, a.stdout) != (b.rc, b.stderr, b.stdout):
            raise Violation('not the same again (%s in %s): %s\n%s' % (str(e)[:200], where, show(args, a), show(args, b)))
        for o in OUTS:
            if a.out[o] != b.out[o]:
                raise Violation('%s is not the same again (%s in %s)\n%s\n%s' % (
                    o, str(e)[:200], where, (a.out[o] or b'')[:300], (b.out[o] or b'')[:300]))
    got = a.rc == 0 or any(not m.rstrip().endswith(':') and 'parse' not in m for m in a.messages())
    return Info(got, [cls, 'rc %d' % a.rc] + tags, ' '.join(args) + '\n' + '\n'.join(texts.values()),
                repr((sorted(texts.items()), args)), evals=4)


def memory(s, env):
    """Nothing depends on memory that was never written (MemorySanitizer)."""
    texts, base, main, cls = source(s)
    fresh(texts)
    args = base + ['-' + fmt_for(s), '-o', 'out', '-l', 'out.lst', '-s', 'out.sym', '-E', 'out.exp'] + main
    r = run.asm(env, args, texts, OUTS, variant='msan', extra_env={'MSAN_OPTIONS': 'exitcode=99:symbolize=0'})
    p = run.asm(env, args, texts, OUTS)
    if (r.rc, r.stderr, r.out) != (p.rc, p.stderr, p.out):
        raise Violation('another build gives another result: %s\n%s' % (show(args, p), show(args, r)))
    got = r.rc == 0 or any(not m.rstrip().endswith(':') and 'parse' not in m for m in r.messages())
    return Info(got, [cls, 'rc %d' % r.rc], ' '.join(args) + '\n' + '\n'.join(texts.values()),
                repr((sorted(texts.items()), args)), evals=2)


# -- unused definitions -----------------------------------------------------------------

def unused_lines(s, g, files):
    """Definitions nothing refers to, and where they may go."""
    out = []
    for _ in range(s.w((5, s.i(1, 4)), (2, s.i(5, 40)), (1, s.i(100, 400)))):
        n = g.name()
        k = s.draw(9)
        if k <= 2:
            out.append([Line(lab(n), 'equ', [s.pick([g.const(), S('text'), ('f', '1.5'), reg('x'), ('o', '*', g.const(0, 99), I(3))])])])
        elif k == 3:
            r = g.ref(('label', 'const'))
            out.append([Line(lab(n), 'equ', [('o', '+', r or I(1), I(s.i(0, 9)))])])
        elif k == 4:
            out.append([Line(lab(n), 'set', [I(s.i(0, 300))])] * s.i(1, 3))
        elif k == 5:
            out.append([Line(lab(n), None, None)])
        elif k == 6:
            out.append([Line(lab(n), 'equ', [('pc',)])])
        else:
            body = []
            for _ in range(s.i(0, 3)):
                body.append(s.pick([Line(None, 'fcb', [IP(1), I(2)]), Line(lab(g.name()), 'nop'), Line(None, 'lda', [IP(2)]),
                                    Line(('id', [('ip', 1)]), 'equ', [IP(2)]), Line(None, 'nosuchop', [ID('nowhere')])]))
            out.append([Line(lab(n), 'macro')] + body + [Line(None, 'endm')])
    return out


def unused(s, env):
    """Definitions nothing uses leave the code alone."""
    files, g = valid(s)
    isa = ['-3'] if g.isa == 6309 else []
    st = render.Style(g.isa)
    before = {n: render.program(st, fl) for n, fl in files.items()}
    defs = []
    spots = {f: c18.live_spots(fl) or [0] for f, fl in files.items()}
    for b in unused_lines(s, g, files):
        # anywhere the code is assembled exactly once
        f = MAIN
        sp = spots[f]
        at = s.pick([0, s.pick(sp), s.pick(sp)])
        if b[0].op is None and at == 0:
            at = s.pick(sp)
        files[f][at:at] = b
        spots[f] = c18.live_spots(files[f]) or [0]
    if s.p(50):
        for _ in range(s.i(1, 5)):
            defs += s.pick([['-d', g.name()], ['-d', '%s=%d' % (g.name(), s.i(-9, 70000))]])
    after = {n: render.program(st, fl) for n, fl in files.items()}
    fmt = '-' + fmt_for(s)
    common = isa + [fmt, '-o', 'out', '-E', 'out.exp']
    a = run.asm(env, common + [MAIN], before, ['out', 'out.exp'])
    b = run.asm(env, common + defs + [MAIN], after, ['out', 'out.exp'])
    if a.rc != b.rc:
        raise Violation('unused definitions change the verdict: %d %s\n%d %s' % (
            a.rc, a.stderr[:300].decode('latin-1'), b.rc, b.stderr[:300].decode('latin-1')))
    if a.rc == 0 and a.out != b.out:
        raise Violation('unused definitions change the output')
    return Info(a.rc == 0 and bool(a.out['out']), ['rc %d' % a.rc, '%d options' % (len(defs) // 2)],
                ' '.join(common + defs) + '\n' + '\n'.join(after.values()), repr((sorted(after.items()), common + defs)), evals=2)


PARTS = [Part('requests', requests, 5800, 60000), Part('repeat', repeat, 7800, 80000), Part('memory', memory, 7800, 100000),
         Part('unused', unused, 6800, 70000)]
ASSUME = ['a request that cannot be met (an image or EXEC address the format cannot represent, an export of something undefined) is '
          'an error of that request alone']
