"""C13: placement - ORG, PUT, RMB, ALIGN and SECTION."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a history counts when it moves the address at least once between emissions (shuffle: at least two blocks); '
        'distinct by source')

EDGE = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000]
SECS = ['CODE', 'DATA', 'bss', 'a', 'A', 'b.c', 'x y']


class PG:
    def __init__(self, s, limits=False):
        self.s = s
        self.limits = limits        # stray outside memory
        self.n = 0
        self.moves = 0
        self.base = 0
        self.labels = []
        self.cursor = 0             # next free block for ORG

    def addr(self):
        """Address operand: mostly fresh blocks, so that data rarely overlaps."""
        s = self.s
        k = s.draw(9)
        if self.limits and k >= 7:
            return I(s.pick(EDGE + [-1, -2, -128, 0x10001, 0xfff0, 0x1ffff, 0x7fffffff, -0x8000, 0x80000000]))
        if k == 9 and self.labels:
            return ('o', '+', ID(s.pick(self.labels)), I(s.i(0, 0x200)))
        if k == 8:
            return ('o', '+', ('pc',), I(s.i(0, 300)))
        self.cursor = (self.cursor + s.w((3, 0x400), (2, 0x100), (1, 0x80), (1, 0x1000))) & 0xffff
        return I(self.cursor + s.w((3, 0), (1, s.i(0, 0x3f))))

    def data(self, big=False):
        s = self.s
        k = s.draw(8)
        if k <= 2:
            return Line(None, 'fcb', [I(s.i(0, 255)) for _ in range(s.i(1, 4))])
        if k == 3:
            return Line(None, 'fdb', [('pc',)])
        if k == 4:
            return Line(None, 'fill', [I(s.i(0, 255)), I(s.pick([0, 1, 2, 31, 32, 33, 127, 128, 129, 255, 256, 257]))])
        if k == 5:
            return Line(None, 'rzb', [I(s.pick([0, 1, 3, 16, 127, 128, 200]))])
        if k == 6:
            return Line(None, 'fcc', [S('t' * s.i(1, 40))])
        if k == 7:
            return Line(None, s.pick(['lda', 'ldx', 'jmp', 'lbra']), [I(s.i(0, 0xffff))])
        return Line(None, 'fqb', [I(s.i(0, 0xffffff))])

    def label(self):
        self.n += 1
        n = 'l%d' % self.n
        self.labels.append(n)
        return lab(n)

    def overlay(self):
        """Loaded back to back, assembled for addresses of their own."""
        s = self.s
        self.cursor = (self.cursor + s.pick([0x100, 0x400, 0x1000])) & 0xffff
        a = min(self.cursor & 0xfff0, 0xf800)
        out = []
        self.moves += 1
        for _ in range(s.i(2, 4)):
            ln = s.pick([Line(None, 'fcb', [I(s.i(0, 255)) for _ in range(s.i(1, 6))]), Line(None, 'fdb', [('pc',)]),
                         Line(None, 'lbra', [('pc',)]), Line(None, 'rzb', [I(s.i(1, 140)), I(s.i(0, 255))])])
            n = {'fcb': len(ln.args), 'fdb': 2, 'lbra': 3}.get(ln.op) or ln.args[0][1]
            k = s.draw(2)
            if k == 0:
                out += [Line(None, 'org', [s.pick([I(a), I(s.i(0, 0xff00)), ('o', '+', ('pc',), I(s.i(0, 9)))])]),
                        Line(None, 'put', [I(a)])]
            elif k == 1:
                out += [Line(None, 'rmb', [I(s.i(1, 9))]), Line(None, 'put', [I(a)])]
            else:
                out.append(Line(None, 'put', [I(a)]))
            if s.p(30):
                out.append(Line(self.label()))
            out.append(ln)
            a += n
        self.cursor = (a + 0x100) & 0xff00
        return out

    def step(self):
        s = self.s
        k = s.w((8, 'data'), (3, 'org'), (3, 'put'), (3, 'rmb'), (2, 'align'), (4, 'section'), (2, 'label'), (1, 'relput'))
        if k == 'data':
            return self.data()
        self.moves += 1
        if k == 'org':
            return Line(self.label() if s.p(25) else None, 'org', [self.addr()])
        if k == 'put':
            return Line(None, 'put', [self.addr()])
        if k == 'relput':
            return Line(None, 'put', [('o', '+', ('pc',), I(s.i(0, 64)))])
        if k == 'rmb':
            return Line(self.label() if s.p(25) else None, 'rmb',
                        [I(s.pick([0, 1, 2, 5, 16, 100, 255, 256, 1000]))])
        if k == 'align':
            return Line(None, 'align', [I(s.pick([1, 2, 3, 4, 5, 7, 8, 16, 100, 256, 1000]))] +
                        ([I(s.i(0, 255))] if s.draw(1) else []))
        if k == 'section':
            if s.draw(1):
                return Line(self.label() if s.p(20) else None, 'section', [S(s.pick(SECS))])
            return Line(None, s.pick(['code', 'data', 'bss', 'DATA', 'CODE', 'auto', 'ram']))
        return Line(self.label())


def history(s, env):
    g = PG(s)
    lines = [Line(None, 'org', [g.addr()])] if s.draw(1) else []
    for _ in range(s.length(3, 30, 12)):
        lines.append(g.step())
        if s.p(5):
            lines += g.overlay()
    for l in g.labels:
        if s.p(20):
            lines.append(Line(None, 'fdb', [ID(l)]))
    lines.append(fcb(1))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, listing=True)
    return info(case, o, g.moves > 0, [])


def limits(s, env):
    """Around 0 and 64K."""
    g = PG(s, True)
    lines = []
    for _ in range(s.length(2, 8, 4)):
        k = s.draw(5)
        if k == 0:
            lines.append(Line(None, s.pick(['org', 'org', 'put']), [I(s.pick(EDGE + [-1, -5, -128, -0x8000, 0x10001, 0x20000,
                                                                             0xfff0, 0xff80, 0x7fffffff, -0x7fffffff,
                                                                             0x80000000, 0x100000000]))]))
        elif k == 1:
            n = s.pick([0, 1, 15, 16, 17, 127, 128, 129, 256, 0xff, 0x7fff, 0xfffe, 0xffff, 0x10000, 0x10001, -1,
                        0x7fffffff, 0x100000000, -0x100000000])
            lines.append(Line(None, s.pick(['rmb', 'rzb', 'align', 'bsz']), [I(n)]))
        elif k == 2:
            lines.append(Line(None, 'fill', [I(s.i(0, 255)), I(s.pick([0, 1, 16, 128, 256, 0xfff0, 0x10000, 0x10001, -1]))]))
        else:
            lines.append(g.step())
    lines.append(fcb(1))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, listing=s.draw(1) == 1)
    return info(case, o, True, [])


def follow(s, env):
    """Sections without ORG follow the one first selected before them, also when
    sizes are known only after several passes."""
    names = s.sample(['CODE', 'DATA', 'BSS', 's1', 's2', 's3', 's4'], s.i(2, 6))
    lines = [org(s.pick([0, 0x100, 0x1000, 0x8000]))] if s.draw(1) else []
    labels = []
    uses = []
    for k in range(s.i(3, 16)):
        lines.append(Line(None, 'section', [S(s.pick(names))]))
        for _ in range(s.i(0, 3)):
            j = s.draw(7)
            if j <= 1:
                l = 'm%d' % len(labels)
                labels.append(l)
                lines.append(Line(lab(l), s.pick([None, 'nop', 'rmb']), None))
                if lines[-1].op == 'rmb':
                    lines[-1].args = [I(s.pick([0, 1, 10, 120]))]
            elif j == 2:
                # size depends on a symbol that may be defined later
                ln = Line(None, s.pick(['lda', 'ldx', 'leax']), None)
                uses.append(ln)
                lines.append(ln)
            elif j == 3:
                lines.append(Line(None, 'rzb', [I(s.pick([0, 1, 7, 100, 130]))]))
            elif j == 4 and s.p(30):
                lines.append(Line(None, s.pick(['org', 'put']), [I(s.pick([0x2000, 0x3000, 0x4000, 0x6000]))]))
            elif j == 5:
                lines.append(Line(None, 'align', [I(s.pick([2, 4, 16]))]))
            elif j == 6:
                lines.append(Line(None, 'setdp', [I(s.i(0, 2))]))
            else:
                lines.append(Line(None, 'fdb', [('pc',)]))
    for u in uses:
        e = ID(s.pick(labels)) if labels else I(5)
        if u.op == 'leax':
            u.args = [e, reg('pcr')] if s.draw(1) else [('o', '&', e, I(0xff)), reg('y')]
        else:
            u.args = [e] if s.draw(1) else [('o', '&', e, I(0x3ff))]
    for l in labels:
        lines.append(Line(None, 'fdb', [ID(l)]))
    case = Case({MAIN: lines + [fcb(1)]}, setdp=s.pick([-1, -1, 0, 0x10]))
    o, r = check(env, s, case, listing=s.draw(1) == 1, symbols=True)
    return info(case, o, True, ['%d sections' % len(names)])


def shuffle(s, env):
    """Blocks at fixed addresses in any order, in any sections, make one image."""
    n = s.length(2, 60, 12)
    at = s.pick([0, 0x10, 0x1000, 0x8000])
    blocks = []
    mem = {}
    for i in range(n):
        at += s.w((4, 0), (2, 1), (2, s.i(2, 40)), (1, 256))
        size = s.w((6, s.i(1, 12)), (2, s.i(13, 140)), (1, s.pick([127, 128, 129, 256, 1000])))
        if at + size > 0x10000:
            break
        data = bytes((i * 37 + j * 11 + 5) & 255 for j in range(size))
        blocks.append((at, data))
        for j, b in enumerate(data):
            mem[at + j] = b
        at += size
    if len(blocks) < 2:
        raise Discard('one block')
    order = s.shuffle(blocks)
    lines = []
    for a, d in order:
        if s.p(30):
            lines.append(Line(None, 'section', [S(s.pick(SECS))]))
        k = s.draw(4)
        if k <= 2:
            lines.append(org(a))
        elif k == 3:
            # assembled elsewhere, loaded at a
            lines += [org(s.pick([0, 0x4000, 0xc000])), Line(None, 'put', [I(a)])]
        else:
            # reached by reserving space
            back = s.i(0, min(a, 50))
            lines += [org(a - back), Line(None, 'rmb', [I(back)])]
        while d:
            m = s.pick([1, 3, 8, 16])
            lines.append(Line(None, 'fcb', [I(b) for b in d[:m]]))
            d = d[m:]
    text = render.program(render.Style(), lines)
    segs = []
    for a in sorted(mem):
        if segs and segs[-1][0] + len(segs[-1][1]) == a:
            segs[-1][1].append(mem[a])
        else:
            segs.append((a, bytearray([mem[a]])))
    segs = [(a, bytes(d)) for a, d in segs]
    fmt = fmt_for(s)
    r = run.asm(env, ['-' + fmt, '-o', 'out', MAIN], {MAIN: text}, ['out'])
    if r.rc:
        raise Violation('valid layout rejected: %s' % r.stderr[:300].decode('latin-1'))
    exp = outputs.expected(fmt, segs, None)
    try:
        img = outputs.DECODE[fmt](r.out['out'] or b'')
    except outputs.Bad as e:
        raise Violation('format %s output is malformed: %s' % (fmt, e))
    if img.segs != exp.segs:
        raise Violation('image differs\n  got      %s\n  expected %s' % (outputs.show(img.segs), outputs.show(exp.segs)))
    return Info(True, ['%d blocks' % (len(blocks) // 10 * 10)], text, None)


def interleave(s, env):
    """Sections selected alternately: each carries on where it left off.  The
    expected image comes from following each section's cursor directly."""
    names = s.sample(['CODE', 'p', 'q', 'r', 'T'], s.i(2, 4))
    start = {}
    lines = []
    base = 0x1000
    for n in names:
        start[n] = base
        base += 0x2000
    cur = {n: [start[n], start[n]] for n in names}          # pc, put
    mem = {}
    for i, n in enumerate(names):
        lines += [Line(None, 'section', [S(n)]), org(start[n])]
    v = 0
    for _ in range(s.i(2, 25)):
        n = s.pick(names)
        lines.append(Line(None, 'section', [S(n)]))
        for _ in range(s.i(0, 4)):
            pc, put = cur[n]
            k = s.draw(5)
            if k <= 1:
                d = [(v + j) & 255 for j in range(s.i(1, 9))]
                v += 17
                lines.append(Line(None, 'fcb', [I(x) for x in d]))
                for j, x in enumerate(d):
                    mem[put + j] = x
                cur[n] = [pc + len(d), put + len(d)]
            elif k == 2:
                lines.append(Line(None, 'fdb', [('pc',)]))
                mem[put], mem[put + 1] = (pc >> 8) & 255, pc & 255
                cur[n] = [pc + 2, put + 2]
            elif k == 3:
                m = s.pick([0, 1, 3, 60])
                lines.append(Line(None, 'rmb', [I(m)]))
                cur[n] = [pc + m, put + m]
            elif k == 4:
                a = s.pick([2, 4, 10, 16])
                m = -pc % a
                if s.draw(1):
                    lines.append(Line(None, 'align', [I(a), I(0xaa)]))
                    for j in range(m):
                        mem[put + j] = 0xaa
                else:
                    lines.append(Line(None, 'align', [I(a)]))
                cur[n] = [pc + m, put + m]
            else:
                lines.append(Line(None, 'nop'))
                mem[put] = 0x12
                cur[n] = [pc + 1, put + 1]
    lines += [Line(None, 'section', [S(names[0])]), fcb(0x55)]
    mem[cur[names[0]][1]] = 0x55
    text = render.program(style_for(s, 6809), lines)
    r = run.asm(env, ['-S', '-o', 'out', MAIN], {MAIN: text}, ['out'])
    if r.rc:
        raise Violation('valid layout rejected: %s' % r.stderr[:300].decode('latin-1'))
    try:
        img = outputs.srec(r.out['out'] or b'')
    except outputs.Bad as e:
        raise Violation('malformed output: %s' % e)
    got = {a + j: b for a, d in img.segs for j, b in enumerate(d)}
    if got != mem:
        bad = sorted(a for a in set(got) | set(mem) if got.get(a) != mem.get(a))
        raise Violation('memory at $%04X is %s instead of %s' % (bad[0], got.get(bad[0]), mem.get(bad[0])))
    return Info(True, ['%d sections' % len(names)], text, None)


def named(s, env):
    """Any number of sections, with names of any length, told apart by any character."""
    n = s.pick([2, 3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 129])
    stem = s.pick(['', 's', 'abcdefgh', 'Q' * 16, 'name with spaces ', 'x' * 32, 'y.' * 32, 'z' * 126, '_' * 254, '\xe9' * 9])
    mode = s.draw(3)
    names = []
    for i in range(n):
        t = chr(97 + i % 26) * (1 + i // 26) if mode == 0 else '%d' % i if mode == 1 else '%03d' % (i * 7 % 1000)
        names.append(t + stem if mode == 3 else stem + t if s.p(80) else stem + t.upper() + '_')
    lines = []
    count = {}
    for i in range(s.i(n, n * 3)):
        nm = names[i] if i < n else s.pick(names)
        first = nm not in count
        count[nm] = count.get(nm, 0) + 1
        lines.append(Line(lab('l%d' % i) if s.p(10) else None, 'section', [S(nm)]))
        if first and s.p(50):
            lines.append(org(0x100 * (1 + len(count))))
        elif s.p(5):
            lines.append(Line(None, 'put', [I(0x8000 + 0x80 * (i % 200))]))
        lines += s.pick([[fcb(i)], [Line(None, 'fdb', [('pc',)])], [Line(None, 'rmb', [I(2)]), fcb(i)], [Line(('n', 1)), Line(None, 'fdb', [('b', 1)])]])
    for nm in s.sample(names, min(3, n)):
        lines += [Line(None, 'section', [S(nm)]), Line(None, 'fdb', [('pc',)])]
    case = Case({MAIN: lines})
    o, r = check(env, s, case, listing=s.p(20), symbols=False)
    return info(case, o, True, ['%d+ sections' % (n // 20 * 20), 'names of %d+' % (len(stem) // 32 * 32)])


def bulk_at(op):
    def maker(s, g):
        base, step = s.pick([0x1000, 0x2000, 0x800]), s.i(2, 9)
        down = s.p(20)
        k = s.draw(3)

        def f(i):
            a = base + (2000 - i if down else i) * step
            x = [Line(lab('%s%d' % (op, i)), op, [I(a)])] if op == 'org' and k == 0 else [Line(None, op, [I(a)])]
            x.append(fcb(i & 255) if k else Line(None, 'fdb', [('pc',)]))
            if k == 3 and step > 3:
                x.append(Line(None, 'rmb', [I(1)]))
            return x
        # one user of memory only
        if getattr(g, 'once', None):
            return g.once
        g.once = f
        return f
    return maker


def bulk_sections(s, g):
    named = s.draw(1)
    names = s.pick([['code', 'data'], ['code', 'data', 'bss', 'ram', 'auto'], ['data', 'CODE', 'BSS']])
    pre = []
    for j, n in enumerate(names):
        pre += [Line(None, 'section', [S(n)]) if named else Line(None, n), org(0x8000 + 0x1800 * j)]
    g.lines += pre
    per = s.i(1, 3)

    def f(i):
        n = names[i // per % len(names)]
        return [Line(None, 'section', [S(n)]) if named else Line(None, n), Line(None, s.pick(['fdb']), [('pc',)])]
    return f


def bulk_space(s, g):
    op = s.pick(['rmb', 'align'])
    return lambda i: [Line(None, op, [I(1 + i % 5)]), fcb(i & 255)]


often = bulk([bulk_at('org'), bulk_at('put'), bulk_sections, bulk_space])

PARTS = [Part('text', textcases.part(focus='place'), 8000, 100000), Part('often', often, 800, 7000), Part('named', named, 1500, 15000), Part('history', history, 16000, 280000), Part('limits', limits, 12000, 200000),
         Part('follow', follow, 12000, 200000), Part('shuffle', shuffle, 8000, 120000),
         Part('interleave', interleave, 9000, 140000),
         Part('arguments', arguments(['org', 'put', 'rmb', 'align', 'section', 'code', 'data']), 6000, 60000)]
ASSUME = ['addresses are integers of moderate size; ALIGN at a negative address is left alone']
