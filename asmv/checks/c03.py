"""C03: branches and PCR operands reach their targets."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it contains a branch or PCR operand whose target is not its own address; distinct by '
        'source text and options')

EDGE8 = [-131, -130, -129, -128, -127, -126, -125, -3, -2, -1, 0, 1, 2, 3, 124, 125, 126, 127, 128, 129, 130]
EDGE16 = [-32769, -32768, -32767, 32766, 32767, 32768, -256, -255, 255, 256, 257]


def rel_line(s, g, target, tags, allow_short=True):
    k = s.draw(5)
    if k <= 3 and s.p(12):
        # size prefixes don't change what a branch can reach
        target = ('attr', s.pick('<>'), target)
        tags.add('prefix')
    if k <= 1 and allow_short:
        tags.add('short')
        return Line(None, s.pick(gen.REL8), [target]), 2
    if k <= 3:
        m = s.pick(gen.REL16)
        tags.add('long')
        return Line(None, m, [target]), len(isa_mod.op(g.table[m]['code'])) + 2
    m = s.pick(['leax', 'leay', 'lda', 'ldy', 'stx', 'jsr', 'cmps', 'leau'] +
               (['ldw', 'adde', 'ldq', 'muld'] if g.isa == 6309 else []))
    if s.p(20) and target[0] != 'attr':
        target = ('attr', s.pick('><'), target)
    args = [target, reg('pcr')]
    tags.add('pcr')
    if s.p(25):
        args = [('arr', args)]
    if g.isa == 6309 and s.p(15):
        return Line(None, 'aim', [('attr', '#', I(s.i(0, 255)))] + args), 4
    return Line(None, m, args), None


def pad(s, g, n):
    """Lines that take exactly n bytes."""
    out = []
    while n > 0:
        k = min(n, s.pick([n, 1, 50, 128]))
        j = s.draw(2)
        if j == 0:
            out.append(Line(None, 'rmb', [I(k)]))
        elif j == 1:
            out.append(Line(None, 'rzb', [I(k)]))
        else:
            out.append(Line(None, 'fill', [I(s.i(0, 255)), I(k)]))
        n -= k
    return out


def exact(s, env):
    """Displacements around the boundaries, target number, symbol or local
    label, before or after."""
    g = Gen(s)
    base = s.pick([0x1000, 0x200, 0, 0x7f80, 0x7ffe, 0xff00, 0xfe00, 0x8000])
    disp = s.pick(EDGE8) if s.p(70) else s.pick(EDGE16) if s.p(40) else s.i(-140, 140)
    tags = set()
    kind = s.pick(['symbol', 'local', 'number', 'equ', 'pc'])
    near = -200 <= disp <= 260
    if not near and kind in ('symbol', 'local'):
        kind = 'equ'
    n = s.draw(3)
    lines = [org(base)]
    if kind in ('symbol', 'local'):
        fwd = disp >= 0
        label = lab('target') if kind == 'symbol' else ('n', s.i(0, 9))
        ref = ID('target') if kind == 'symbol' else (('fw' if fwd else 'b'), label[1])
        ln, size = rel_line(s, g, ref, tags)
        guess = size or s.pick([3, 4, 5])
        if fwd:
            lines += [ln] + pad(s, g, disp) + [Line(label)]
        else:
            lines += [Line(label)] + pad(s, g, max(0, -disp - guess)) + [ln]
        for _ in range(n):
            lines.append(g.instr('inh'))
        lines.append(fcb(1))
    else:
        # place the instruction, aim at address (its end + disp), maybe modulo 64K
        ln, size = rel_line(s, g, ('pc',), tags)
        end = base + n + (size or s.pick([3, 4, 5]))
        t = end + disp
        if s.p(50):
            t &= 0xffff
        if s.p(20):
            # equal modulo 64K
            t += 65536 * s.i(-3, 3)
            tags.add('far from 64K')
        node = I(t)
        if kind == 'pc':
            node = ('o', '+', ('pc',), I(t - base - n)) if t - base - n >= 0 else \
                ('o', '-', ('pc',), I(base + n - t))
        elif kind == 'equ':
            node = ID('target')
        put_target(ln, node)
        d = Line(lab('target'), 'equ', [I(t)])
        if kind == 'equ' and s.draw(1):
            lines.append(d)
        lines += [Line(None, 'nop')] * 0 + [Line(None, 'nop') for _ in range(n)] + [ln, fcb(1)]
        if kind == 'equ' and d not in lines:
            lines.append(d)
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case, listing=s.p(10), symbols=False)
    blame(case, o, r)
    return info(case, o, disp != 0, sorted(tags) + ['target ' + kind])


def put_target(ln, node):
    def sub(a):
        if a == ('pc',):
            return node
        if a[0] == 'attr' and a[2] == ('pc',):
            return ('attr', a[1], node)
        if a[0] == 'arr':
            return ('arr', [sub(x) for x in a[1]])
        return a
    ln.args = [sub(a) for a in ln.args]


OUT_OF_REACH = ('branch out of range', 'relative offset')


def blame(case, o, r):
    """Out of range branches are reported on their own lines."""
    if not o.ok and all(e[0] <= 4 and e[3] in OUT_OF_REACH for e in o.errors if e[0] >= 3) and \
            len(case.files) == 1:
        for e in o.errors:
            if e[0] == 4 and ('%s:%d:' % (e[1], e[2])).encode() not in r.stderr:
                raise Violation('out of range branch at %s:%d not reported: %s' % (
                    e[1], e[2], r.stderr[:300].decode('latin-1')))


def tangle(s, env):
    """Many labels and references in one stretch of code; PCR sizes interact."""
    g = Gen(s)
    g.put(org(s.pick([0x1000, 0, 0x7fc0, 0xff00])))
    nl = s.i(2, 6)
    names = ['L%d' % i for i in range(nl)]
    tags = set()
    todo = list(names)
    n = s.i(4, 16)
    for i in range(n):
        k = s.draw(9)
        if k <= 4:
            t = s.pick(names)
            if s.p(25):
                t = ('o', s.pick('+-'), ID(t), I(s.i(0, 130)))
            else:
                t = ID(t)
            if s.p(15):
                t = (s.pick(['b', 'fw']), s.i(0, 1))
            ln, _ = rel_line(s, g, t, tags, allow_short=s.p(30))
            g.put(ln)
        elif k == 5:
            for ln in pad(s, g, s.pick([1, 2, 3, 40, 60, 110, 118, 120, 122, 124, 126, 128])):
                g.put(ln)
        elif k == 6:
            g.put(g.instr('inh'))
        elif k == 7:
            g.put(Line(('n', s.i(0, 1))))
        elif todo:
            g.put(Line(lab(todo.pop(0))))
    for i in range(2):
        g.put(Line(('n', i)))
    for t in todo:
        g.put(Line(lab(t)))
    g.put(fcb(2))
    case = Case({MAIN: g.lines}, isa=g.isa)
    o, r = check(env, s, case, listing=s.p(20), symbols=s.p(20))
    blame(case, o, r)
    return info(case, o, bool(tags), sorted(tags))


def sections(s, env):
    """Branches between sections and through PUT (displacement follows the PC)."""
    g = Gen(s)
    tags = set()
    names = ['L%d' % i for i in range(4)]
    todo = list(names)
    for i in range(s.i(4, 12)):
        k = s.draw(7)
        if k == 0:
            g.put(Line(None, 'section', [S(s.pick(['a', 'b', 'CODE']))]))
        elif k == 1:
            g.put(Line(None, 'put', [I(0x2000 + 0x200 * i)]))
        elif k == 2:
            g.put(Line(None, 'org', [I(s.pick([0x1000, 0x1040, 0x1080, 0x10c0, 0xff80, 0]) + 0x100 * s.i(0, 2))]))
            g.put(Line(None, 'put', [I(0x4000 + 0x200 * i)]))
        elif k == 3 and todo:
            g.put(Line(lab(todo.pop(0))))
        elif k == 4:
            for ln in pad(s, g, s.i(1, 60)):
                g.put(ln)
        else:
            ln, _ = rel_line(s, g, ID(s.pick(names)), tags, allow_short=s.p(40))
            g.put(ln)
    for t in todo:
        g.put(Line(lab(t)))
    g.put(fcb(3))
    case = Case({MAIN: g.lines}, isa=g.isa)
    o, r = check(env, s, case)
    return info(case, o, bool(tags), sorted(tags))


def near(s, g):
    return rel_line(s, g, ('o', s.pick('+-'), ('pc',), I(s.i(0, 100))), set())[0]


def there(s, g):
    return rel_line(s, g, s.pick([I(s.i(0, 0xffff)), ID(g.plan('label')['name'])]), set(), allow_short=False)[0]


def marks(s, g):
    """A label and a branch to it, or the other way round."""
    back = s.draw(1)
    a, b = [rel_line(s, g, ('b' if back else 'fw', 1), set())[0] for _ in range(2)]
    m = Line(('n', 1), 'nop')
    return lambda i: [m, b if i & 1 else a] if back else [b if i & 1 else a, m]


often = bulk([rotate(near), rotate(there), marks], 2500)

PARTS = [Part('text', textcases.part(focus='rel'), 8000, 100000), Part('often', often, 600, 5000), Part('exact', exact, 88300, 700000), Part('tangle', tangle, 37800, 300000),
         Part('sections', sections, 20200, 150000)]
ASSUME = []
