"""C14: output formats."""
from .common import *   # noqa: F401,F403

RULE = ('a case counts when the image has at least two blocks, a block of more than one record, or an EXEC address; '
        'distinct by source and options')

SIZES = [1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 288]
FMTS = 'BDCSH'


def pattern(n, k):
    return bytes((k * 73 + j * 29 + (j >> 8) * 7) & 0xff for j in range(n))


def data_lines(s, d):
    """Lines emitting d."""
    if not d:
        return []
    if d == d[:1] * len(d):
        return [Line(None, 'fill', [I(d[0]), I(len(d))])] if s.draw(1) else \
            [Line(None, 'rzb', [I(len(d)), I(d[0])])]
    out = []
    i = 0
    while i < len(d):
        n = s.pick([16, 32, 200, 7])
        out.append(Line(None, 'fcb', [I(b) for b in d[i:i + n]]))
        i += n
    return out


def image(s):
    """Blocks [(address, data)]; sometimes overlapping or running beyond 64K."""
    n = s.length(1, 14, 3)
    at = s.pick([0, 1, 0x100, 0x1000, 0x7ff0, 0xfe00, 0xff00, 0xffe0])
    out = []
    for k in range(n):
        j = s.draw(19)
        gap = 0 if j <= 5 else 1 if j <= 8 else s.i(2, 40) if j <= 16 else s.i(100, 3000) if j <= 18 else -s.i(1, 3)
        at = max(0, at + gap)
        size = s.pick(SIZES) if s.draw(1) else s.i(1, 80)
        d = pattern(size, k) if s.p(75) else bytes([s.i(0, 255)]) * size
        if s.p(3):
            d = bytes([s.i(0, 255)]) * s.pick([0x1000, 0x7fff, 0x8000, 0xff00])
        if at + len(d) > 0x10000 and not s.p(10):
            break
        out.append((at, d))
        at += len(d)
    return out or [(0x1000, b'\x12')]


def spell(s, v):
    return s.pick(['%d' % v, '$%x' % v, '$%X' % v, '0x%x' % v, '@%o' % v, '%' + bin(v)[2:], '0b' + bin(v)[2:]])


def build(s, blocks):
    """Program placing the blocks, in any order and any sections."""
    lines = []
    order = s.shuffle(blocks) if s.draw(1) else list(blocks)
    for a, d in order:
        if s.p(15):
            lines.append(Line(None, 'section', [S(s.pick(['x', 'y', 'CODE']))]))
        if s.p(25) or a + len(d) > 0x10000:
            lines += [org(s.pick([b for b in (0, 0x2000, a & 0x3fff) if b + len(d) <= 0x10000])), Line(None, 'put', [I(a)])]
        else:
            lines.append(org(a))
        lines += data_lines(s, d)
    return lines


def merge(blocks):
    """Merged blocks, or None if any overlap."""
    out = []
    for a, d in sorted(blocks):
        if out and a < out[-1][0] + len(out[-1][1]):
            return None
        if out and a == out[-1][0] + len(out[-1][1]):
            out[-1][1].extend(d)
        else:
            out.append((a, bytearray(d)))
    return [(a, bytes(d)) for a, d in out]


def judge(fmt, r, segs, ex):
    exp = outputs.expected(fmt, segs, ex) if segs is not None else None
    if exp is None:
        if r.rc == 0:
            raise Violation('format %s: %s not reported' % (
                fmt, 'overlapping data' if segs is None else 'data it cannot represent'))
        return False
    if r.rc:
        raise Violation('format %s rejected: %s' % (fmt, r.stderr[:300].decode('latin-1')))
    try:
        img = outputs.DECODE[fmt](r.out['out'] or b'')
    except outputs.Bad as e:
        raise Violation('format %s output is malformed: %s' % (fmt, e))
    if img.segs != exp.segs:
        raise Violation('format %s image differs\n  got      %s\n  expected %s' % (
            fmt, outputs.show(img.segs), outputs.show(exp.segs)))
    if fmt != 'B' and exp.exec is not None and img.exec != exp.exec:
        raise Violation('format %s EXEC address %04X instead of %04X' % (fmt, img.exec, exp.exec))
    return True


def images(s, env):
    blocks = image(s)
    lines = build(s, blocks)
    ex = None
    args = []
    defs = []
    k = s.draw(9)
    if k >= 5:
        v = s.pick([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, blocks[-1][0]])
        if k <= 7:
            ex = v
            if s.draw(1):
                lines.append(Line(None, 'end', [I(v)]))
            else:
                if s.draw(1):
                    lines.append(Line(lab('start'), 'equ', [I(v)]))
                else:
                    lines += [org(v), Line(lab('start'))]
                lines.append(Line(None, 'end', [ID('start')]))
        elif s.p(15):
            lines.append(Line(None, 'end'))
    if k >= 7 or k == 4:
        v = s.pick([0, 1, 0x1234, 0x8000, 0xffff, blocks[0][0]])
        ex = v
        if s.p(30):
            lines.insert(0, Line(lab('go'), 'equ', [I(v)]))
            t = 'go'
        elif s.p(20):
            t = 'def'
            defs = ['-d', 'def=%d' % v]
        else:
            t = spell(s, v)
        args += s.pick([lambda: ['-e', t], lambda: ['--exec', t], lambda: ['--exec=' + t], lambda: ['-e' + t]])()
    text = render.program(render.Style(), lines)
    segs = merge(blocks)
    n = 0
    good = 0
    for fmt in FMTS:
        r = run.asm(env, defs + args + [s.pick(['-' + fmt, outputs.LONG[fmt]]), '-o', 'out', MAIN], {MAIN: text}, ['out'])
        good += judge(fmt, r, segs, ex)
        n += 1
    if good > 1 and s.p(10):
        # raw binary is the default format
        r = run.asm(env, ['-o', 'out', MAIN], {MAIN: text}, ['out'])
        if not args or not defs:
            judge('B', r, segs, None)
    return Info(len(blocks) > 1 or len(blocks[0][1]) > 32 or ex is not None,
                ['%d formats accept' % good, 'exec' if ex is not None else 'no exec'],
                '$ %s\n%s' % (' '.join(defs + args), text), None, evals=n)


def programs(s, env):
    """Whole programs through every format."""
    case, g = program(s, ('macro', 'cond', 'section', 'org', 'put', 'str', 'setdp', 'local'), 14)
    if s.p(40):
        g.files[MAIN] = None
        case.files[MAIN].append(Line(None, 'end', [s.pick([I(s.i(0, 0xffff)), g.ref(('label',)) or I(7)])]))
    if s.p(20):
        case.cli_exec = s.i(0, 0xffff)
    case.render(style_for(s, case.isa))
    o = case.model()
    for fmt in FMTS:
        core.diff(case, env, fmt=fmt, o=o)
    return info(case, o, len(o.segments) > 1, [], evals=5)


def nothing(s, env):
    """Programs that emit nothing, or only reserve space."""
    lines = [s.pick([Line(), org(0x1000), Line(None, 'rmb', [I(s.i(0, 300))]), Line(lab('a%d' % i), 'equ', [I(5)]),
                     Line(None, 'section', [S('q')]), Line(None, 'align', [I(16)]), Line(None, 'rzb', [I(0)]),
                     Line(None, 'fill', [I(1), I(0)]), Line(None, 'put', [I(s.i(0, 0xffff))])])
             for i in range(s.i(0, 6))]
    ex = None
    if s.draw(1):
        ex = s.i(0, 0xffff)
        lines.append(Line(None, 'end', [I(ex)]))
    text = render.program(render.Style(), lines)
    n = 0
    for fmt in FMTS:
        r = run.asm(env, ['-' + fmt, '-o', 'out', MAIN], {MAIN: text}, ['out'])
        if r.rc:
            raise Violation('format %s: empty program rejected: %s' % (fmt, r.stderr[:200]))
        judge(fmt, r, [], ex)
        n += 1
    return Info(ex is not None, ['nothing'], text, None, evals=n)


def huge(s, env):
    """Blocks of nearly and exactly 64K, and gaps as large."""
    k = s.draw(4)
    v = s.i(0, 255)
    if k == 0:
        n = s.pick([0xfffe, 0xffff, 0x10000])
        at = s.pick([0, 1, 2])
        blocks = [(at, bytes([v]) * n)]
    elif k == 1:
        n = s.i(0x7000, 0xffff)
        blocks = [(0, bytes([v]) * n), (n, bytes([v ^ 255]) * (0x10000 - n - s.draw(2)))]
    elif k == 2:
        blocks = [(s.draw(2), pattern(s.i(1, 40), 1)), (0x10000 - s.i(1, 40), b'')]
        a = blocks[1][0]
        blocks[1] = (a, pattern(0x10000 - a + s.w((5, 0), (1, 1), (1, -1 if a < 0xffff else 0)), 2))
    elif k == 3:
        # put address beyond 64K
        blocks = [(s.pick([0x10000, 0xffff, 0x10001, 0x1fff0, 0x20000]), pattern(s.i(1, 40), 3))]
        if s.draw(1):
            blocks.append((0x100, b'\x55'))
    else:
        n = s.i(2, 200)
        step = 0x10000 // n
        blocks = [(i * step + s.i(0, max(0, step - 4)) % max(1, step - 4), pattern(s.i(1, min(4, step)), i)) for i in range(n)]
    lines = build(s, blocks)
    text = render.program(render.Style(), lines)
    segs = merge(blocks)
    n = 0
    for fmt in FMTS:
        r = run.asm(env, ['-' + fmt, '-o', 'out', MAIN], {MAIN: text}, ['out'])
        if r.rc and b'beyond addressable' in r.stderr:
            if all(a + len(d) <= 0x10000 for a, d in blocks) and len(blocks) == 1:
                raise Violation('block within 64K rejected: %s' % r.stderr[:200])
            raise Discard('assembled beyond memory')
        judge(fmt, r, segs, None)
        n += 1
    return Info(True, ['kind %d' % k], text, None, evals=n)


def many(s, env):
    """Hundreds of blocks, some adjacent, in any order and any number of sections;
    in some cases two of them overlap."""
    n = s.pick([2, 10, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, s.i(2, 400)])
    near = s.pick([0, 10, 50, 90, 100])
    at = s.pick([0, 0x10, 0x1000])
    blocks = []
    for i in range(n):
        if not s.p(near):
            at += s.pick([1, 1, 2, 5, 30])
        d = pattern(s.w((5, s.i(1, 4)), (1, s.i(5, 40))), i)
        blocks.append((at, d))
        at += len(d)
    if s.p(25):
        # one runs into the next
        i = s.draw(n - 2) if n > 2 else 0
        a, d = blocks[i]
        blocks[i] = (a, (d + pattern(80, 9))[:blocks[i + 1][0] - a + 1])
    order = s.w((2, 0), (2, 1), (1, 2), (1, 3))
    if order == 0:
        blocks_in = list(blocks)
    elif order == 1:
        blocks_in = s.shuffle(blocks)
    elif order == 2:
        blocks_in = blocks[::-1]
    else:
        k = s.i(0, n)
        blocks_in = blocks[k:] + blocks[:k]
    nsec = s.w((3, 0), (2, s.i(1, 4)), (2, s.i(5, 40)), (1, s.i(41, 200)))
    lines = []
    for i, (a, d) in enumerate(blocks_in):
        if nsec:
            lines.append(Line(None, 'section', [S('s%d' % s.i(1, nsec))]))
        lines.append(org(a))
        if s.p(10):
            lines[-1:] = [org(s.i(0, 0x4000)), Line(None, 'put', [I(a)])]
        lines += data_lines(s, d)
    ex = s.pick([None, None, 0, 0x1234, 0xfffe])
    if ex is not None:
        lines.append(Line(None, 'end', [I(ex)]))
    text = render.program(render.Style(), lines)
    segs = merge(blocks)
    good = 0
    fmts = s.sample(FMTS, 2)
    for fmt in fmts:
        r = run.asm(env, ['-' + fmt, '-o', 'out', MAIN], {MAIN: text}, ['out'])
        good += judge(fmt, r, segs, ex)
    return Info(True, ['%d+ blocks' % (n // 100 * 100), 'overlap' if segs is None else '%d+ merged' % (len(segs) // 64 * 64)], text, None, evals=2)


PARTS = [Part('many', many, 1300, 8000), Part('images', images, 18100, 90000), Part('programs', programs, 7500, 40000),
         Part('nothing', nothing, 1200, 4000), Part('huge', huge, 2110, 9000)]
ASSUME = ['EXEC addresses lie within 0-$FFFF', 'the raw format may hold data placed beyond 64K']
