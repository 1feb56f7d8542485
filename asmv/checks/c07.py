"""C07: data directives."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = 'a program counts when a data directive emits or reserves at least one byte, or is rejected; distinct by source'

LISTS = ['fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb']
WIDE = [0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff,
        0x100000000, 0x123456789a, -1, -128, -129, -255, -256, -32768, -32769, -65536, -0x80000000, -0x80000001]


def anytext(s):
    k = s.draw(5)
    if k <= 2:
        return ''.join(chr(s.i(32, 127)) for _ in range(s.i(1, 12)))
    if k == 3:
        return ''.join(chr(s.i(1, 255)) for _ in range(s.i(1, 12)))
    if k == 4:
        return chr(s.i(1, 255))
    # runs through a whole range of characters
    a = s.i(1, 200)
    return ''.join(chr(c) for c in range(a, min(256, a + s.i(1, 90))))


def datum(s, g, op=''):
    k = s.draw(9)
    if k <= 3:
        return S(anytext(s).replace('\x00', ' '))
    if k <= 5:
        return I(s.pick(WIDE))
    if k == 6:
        return I(s.i(-300, 300))
    if k == 7:
        if op in ('fqb', 'fdb') or s.p(40):
            return s.pick([lambda: ('f', s.pick(['2147483647.5', '2147483648.0', '2147483649.0', '4026531840.25', '4294967295.9', '4294967296.5',
                                                 '1099511627777.', '9007199254740993.', '65535.99', '32768.5'])),
                           lambda: ('o', '/', I(s.pick([1 << 33, 1 << 40, 0xffffffff, -(1 << 33), 77])), I(s.i(1, 9))),
                           lambda: ('u', '-', ('f', s.pick(['2147483648.5', '2147483649.', '0.5', '4294967296.'])))])()
        return ('f', s.pick(['0.5', '1.99', '200.5', '300.', '70000.75', '.999']))
    if k == 8:
        return ('chr', s.i(33, 126) if s.p(80) else s.i(128, 255))
    return s.pick([EMPTY, ID('ahead'), ID('back'), ID('str'), ('u', '-', ('f', '1.5')), ('pc',)])


def tree_text_ok(args):
    return True


def items(s, env):
    g = Gen(s)
    lines = [org(s.pick([0x1000, 0, 0x8000])), Line(lab('back'))]
    tags = set()
    for _ in range(s.i(1, 8)):
        op = s.pick(LISTS)
        args = [datum(s, g, op) for _ in range(s.length(1, 6, 2))]
        if args == [EMPTY]:
            args = [I(0)]
        ln = Line(None, op, args)
        if s.p(20):
            ln.label = lab('d%d' % len(lines))
        lines.append(ln)
        tags.add(op)
    lines += [fcb(0x55), Line(lab('ahead')), Line(lab('str'), 'equ', [S(s.pick(['Z', 'word', 'a b']))])]
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case)
    return info(case, o, True, sorted(tags))


COUNTS = [0, 1, 2, 3, 15, 16, 17, 100, 126, 127, 128, 129, 130, 255, 256, 257, 384, 511, 512, 513, 1000, 1024, 4095,
          4096, 4097, 8192, 30000, 60000]


def counts(s, env):
    """Repetition, reservation and alignment of all sizes."""
    g = Gen(s)
    lines = [org(s.pick([0, 0x100, 0x1001, 0xff]))]
    tags = set()
    total = 0
    for _ in range(s.i(1, 8)):
        op = s.pick(['rzb', 'fzb', 'zmb', 'bsz', 'fill', 'rmb', 'align', 'align', 'fcb', 'fill'])
        n = s.pick(COUNTS[:19]) if total or s.draw(3) else s.pick(COUNTS)
        if s.p(20):
            n = s.i(0, 700)
        total += n
        v = I(s.pick([0, 1, 0x55, 0xff, 0x100, 0x1a5, -1, -2]))
        c = I(n) if s.p(70) else ('o', '-', I(n + 5), I(5)) if s.draw(1) else ID('n%d' % n)
        if c[0] == 'id' and not any(l.label == ('id', ['n%d' % n]) for l in lines):
            lines.append(Line(lab('n%d' % n), 'equ', [I(n)]))
        if op in ('rzb', 'fzb', 'zmb', 'bsz'):
            ln = Line(None, op, [c, v] if s.draw(1) else [c])
        elif op == 'fill':
            ln = Line(None, op, [v, c])
        elif op == 'rmb':
            ln = Line(None, op, [c])
        elif op == 'align':
            a = s.pick([1, 2, 3, 4, 5, 8, 10, 16, 100, 128, 256, 1000, 4096])
            ln = Line(None, op, [I(a), v] if s.draw(1) else [I(a)])
        else:
            ln = fcb(s.i(0, 255))
        if s.p(15):
            ln.label = lab('x%d' % len(lines))
        lines.append(ln)
        tags.add(op)
    lines.append(Line(None, 'fdb', [('pc',)]))
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case)
    return info(case, o, True, sorted(tags))


SIZES = [0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193,
         10000, 16384, 32768, 65000]


def includebin(s, env):
    g = Gen(s)
    bins = {}
    lines = [org(s.pick([0, 0x80, 0x200]))]
    size = 0
    for i in range(s.i(1, 3)):
        n = s.pick(SIZES) if i == 0 else s.pick(SIZES[:16])
        name = s.pick(['data%d.bin', 'x%d', 'a b%d.rom', 'd.%d']) % i
        seed = s.i(0, 255)
        pat = s.draw(3)
        if pat == 0:
            data = bytes((seed + j * 7 + (j >> 8)) & 0xff for j in range(n))
        elif pat == 1:
            data = bytes([seed]) * n
        elif pat == 2:
            data = (b'\xff\xfe\x00\x0a\x0d\x1a' * (n // 6 + 1))[:n]
        else:
            data = bytes((seed * (j + 1) * 2654435761 >> 7) & 0xff for j in range(n))
        bins[name] = data
        size += n
        if s.draw(1):
            lines.append(Line(None, s.pick(['fcb', 'fcc']), [I(s.i(0, 255))]))
        ln = Line(lab('b%d' % i) if s.draw(1) else None, 'includebin', [S(name)])
        if s.p(10):
            lines.append(Line(lab('f%d' % i), 'equ', [S(name)]))
            ln.args = [ID('f%d' % i)]
        lines.append(ln)
        if s.p(20):
            lines.append(Line(None, 'includebin', [S(name)]))
    lines.append(Line(None, 'fdb', [('pc',)]))
    if s.p(10):
        lines.insert(2, Line(None, 'includebin', [S('missing.bin')]))
    case = Case({MAIN: lines}, isa=g.isa, binfiles=bins)
    o, r = check(env, s, case)
    return info(case, o, size > 0, ['%d bytes' % n for n in sorted({len(b) for b in bins.values()})])


def reject(s, env):
    """Counts, types and numbers of arguments."""
    g = Gen(s)
    op = s.pick(LISTS + ['rzb', 'fzb', 'zmb', 'bsz', 'fill', 'rmb', 'align', 'includebin'] * 2)
    n = s.w((3, 1), (3, 2), (1, 0), (1, 3))

    def a():
        k = s.draw(9)
        if k <= 2:
            return I(s.pick([-1, -5, 0, 1, 3, -65536, 65535, 65536, 65537, 0x7fffffff, 0x100000000, -0x7fffffff]))
        if k == 3:
            return reg(s.pick('xabd'))
        if k == 4:
            return S(s.pick(['a', 'zz', 'nofile']))
        if k == 5:
            return ('arr', [I(1)])
        if k == 6:
            return ('f', s.pick(['2.5', '0.5']))
        if k == 7:
            return ID('nowhere')
        if k == 8:
            return EMPTY
        return I(s.i(0, 50))
    args = [a() for _ in range(n)]
    if args == [EMPTY] or not args:
        args = None
    ln = Line(None, op, args)
    lines = [org(0x1003), fcb(1), ln, fcb(2)]
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case, listing=False)
    if not o.ok and b'main.s:3:' not in r.stderr and any(e[2] == 3 for e in o.errors if e[0] >= 3):
        raise Violation('error not reported for main.s:3: %s' % r.stderr[:300].decode('latin-1'))
    return info(case, o, True, [op])


MANY = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513,
        1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000]


def many(s, env):
    """Directives with very many values or very long strings, every one of which counts."""
    lines = [org(s.pick([0x1000, 0, 0x3fff]))]
    total = 0
    for i in range(s.i(1, 3)):
        op = s.pick(LISTS)
        n = s.pick(MANY[:28]) if i or s.p(70) else s.pick(MANY)
        k = s.draw(3)
        # no two alike for as long as that lasts
        a, b = s.i(0, 255), s.pick([1, 3, 7, 13])
        if k <= 1:
            args = [I((a + j * b) & 0xff | (j >> 8) << 8 if op not in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci') else (a + j * b) & 0xff) for j in range(min(n, 1500))]
            for _ in range(s.i(0, 4)):
                args[s.draw(len(args) - 1)] = s.pick([S('in'), ID('ahead'), EMPTY, ('f', '3.5'), ('pc',), ('chr', 65)])
        else:
            if k == 2 or op in ('fdb', 'fqb'):
                args = [S(''.join(chr(32 + (a + j * b + j // 90) % 95) for j in range(n)))]
            else:
                args = []
                left = n
                while left > 0:
                    m = min(left, s.i(1, 300))
                    args.append(S(''.join(chr(32 + (a + j * b) % 95) for j in range(m))))
                    left -= m
        lines.append(Line(lab('l%d' % i) if s.p(20) else None, op, args))
        total += n
    lines += [fcb(0x55), Line(lab('ahead'), 'equ', [I(7)]), Line(None, 'fdb', [('pc',)])]
    case = Case({MAIN: lines})
    o, r = check(env, s, case)
    return info(case, o, True, ['%d+ values' % (total // 500 * 500)])


def bulk_list(s, g):
    op = s.pick(LISTS)

    def f(i):
        return [Line(None, op, [I((i * 5 + j) & 255 if j else i) for j in range(1 + i % 3)] if op not in ('fcs', 'fcv', 'fci', 'fcc', 'fcn', 'fcb')
                     or i % 4 else [S('t%d' % i), I(i & 31)])] if op[:2] != 'fc' or i % 4 == 0 else [Line(None, op, [I(i & 255)])]
    return f


def bulk_count(s, g):
    op = s.pick(['rzb', 'zmb', 'bsz', 'fill', 'rmb', 'align', 'align'])

    def f(i):
        if op == 'fill':
            return [Line(None, op, [I(i & 255), I(i % 5)])]
        if op == 'align':
            return [fcb(i & 255), Line(None, op, [I(1 + i % 4)] + ([I(i & 255)] if i & 1 else []))]
        return [Line(None, op, [I(i % 4)]), fcb(i & 255)]
    return f


def bulk_bin(s, g):
    if not getattr(g, 'bins', None):
        g.bins = {'b%d' % j: bytes((j * 40 + k) & 255 for k in range(s.i(0, 6))) for j in range(s.i(1, 5))}
    n = len(g.bins)
    return lambda i: [Line(None, 'includebin', [S('b%d' % (i % n))])]


often = bulk([bulk_list, bulk_list, bulk_count, bulk_count, bulk_bin], 2500)

PARTS = [Part('text', textcases.part(focus='data'), 8000, 100000), Part('often', often, 700, 6000), Part('many', many, 1600, 12000), Part('items', items, 44300, 400000), Part('counts', counts, 24200, 200000),
         Part('includebin', includebin, 10100, 80000), Part('reject', reject, 28200, 250000),
         Part('arguments', arguments(LISTS + ['rzb', 'fzb', 'zmb', 'bsz', 'fill', 'rmb', 'align', 'includebin']), 8100, 60000)]
ASSUME = []
