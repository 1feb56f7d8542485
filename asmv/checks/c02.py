"""C02: indexed addressing postbytes and offset sizes."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it contains an indexed operand with an offset, register offset, increment, PC-relative '
        'or indirect form, or is rejected because of one; distinct by source text and options')

EDGE = [0, 1, -1, 2, 7, 8, 14, 15, 16, 17, -15, -16, -17, -18, 31, 32, 126, 127, 128, 129, -126, -127, -128, -129,
        -130, 240, 248, 255, 256, 257, -255, -256, -257, 0x7ff, 0x1000, 32766, 32767, 32768, 32769, -32767, -32768,
        -32769, 65408, 65520, 65534, 65535, 65536, 65537, -65535, -65536, 0x12345, 0x7fffffff]


def offset_value(s):
    k = s.draw(5)
    if k <= 2:
        return s.pick(EDGE)
    if k == 3:
        return s.i(-140, 140)
    if k == 4:
        return s.i(-20, 20)
    return s.i(-40000, 70000)


def offset(s, g):
    """Constant offset, sometimes through a symbol or expression."""
    v = offset_value(s)
    k = s.draw(9)
    if k <= 5:
        return I(v)
    if k == 6:
        return ('o', '+', I(v - 3), I(3))
    if k == 7:
        d = g.plan('const', value=I(v))
        if s.draw(1):
            g.define(d)
        return ID(d['name'])
    if k == 8 and abs(v) < 1 << 20:
        return ('o', '/', I(v * 2), I(2))
    return ('o', '-', I(v), I(0))


def mem_line(s, g, args):
    m = s.pick(gen.mnemonics(g.isa, 'mem') + gen.mnemonics(g.isa, 'lea') * 4)
    if g.isa == 6309 and s.p(10):
        m = s.pick(gen.mnemonics(6309, 'immem'))
        return Line(None, m, [('attr', '#', I(s.i(0, 255)))] + args)
    return Line(None, m, args)


def good(s, g, tags):
    """Valid indexed operand."""
    ind = s.p(35)
    six = g.isa == 6309
    r = s.pick(['x', 'y', 'u', 's'])
    k = s.draw(11)
    if k <= 4:
        off = offset(s, g)
        if s.p(35):
            off = ('attr', s.pick(['<', '>'] if ind else ['<<', '<', '>']), off)
            tags.add('forced ' + off[1])
        else:
            tags.add('constant')
        a = [off, reg(r)]
    elif k == 5:
        a = [reg(s.pick(['a', 'b', 'd', 'e', 'f', 'w'] if six else ['a', 'b', 'd'])), reg(r)]
        tags.add('accumulator')
    elif k == 6:
        a = [s.pick([EMPTY, EMPTY, I(0)]), reg(r, s.pick(['++', '--x'] if ind else ['+', '++', '-x', '--x']))]
        tags.add('increment')
    elif k == 7:
        a = [offset(s, g), reg('pc')]
        if s.p(30):
            a[0] = ('attr', s.pick('<>'), a[0])
        tags.add('pc')
    elif k == 8:
        a = [g.address(), reg('pcr')]
        if s.p(30):
            a[0] = ('attr', '>', a[0])
        tags.add('pcr')
    elif k == 9 and six:
        a = s.pick([lambda: [EMPTY, reg('w')], lambda: [EMPTY, reg('w', '++')], lambda: [EMPTY, reg('w', '--x')],
                    lambda: [offset(s, g), reg('w')], lambda: [('attr', '>', offset(s, g)), reg('w')]])()
        tags.add('w')
    elif k == 10:
        a = [g.address()]
        ind = True
        tags.add('extended indirect')
    else:
        a = [EMPTY, reg(r)]
        tags.add('none')
    if ind:
        tags.add('indirect')
    return [('arr', a)] if ind else a


def valid(s, env):
    g = Gen(s)
    g.put(org(s.pick([0x1000, 0, 0x7f00, 0xd000])))
    d = g.plan('label')
    g.define(d)
    g.plan('label')
    tags = set()
    n = s.i(1, 12)
    for _ in range(n):
        g.put(mem_line(s, g, good(s, g, tags)))
    for d in list(g.syms):
        if not d['done']:
            g.define(d)
    g.put(fcb())
    case = Case({MAIN: g.lines}, isa=g.isa)
    o, r = check(env, s, case, listing=s.p(10), symbols=False)
    return info(case, o, True, sorted(tags), evals=n)


def matrix(s, env):
    """Any combination of offset, register and indirection."""
    g = Gen(s)
    names = ['x', 'y', 'u', 's', 'pc', 'pcr', 'a', 'b', 'd', 'cc', 'dp'] + \
        (['w', 'e', 'f', 'q', 'v'] if g.isa == 6309 else [])
    k = s.draw(6)
    if k <= 2:
        off = I(offset_value(s))
    elif k == 3:
        off = EMPTY
    elif k == 4:
        off = reg(s.pick(names), s.w((6, ''), (1, '+'), (1, '--x'), (1, 'x-')))
    elif k == 5:
        off = s.pick([('f', '3.75'), S('ab'), ('f', '-0.5') if False else ('f', '0.5'), I(0)])
    else:
        off = ID('ahead')
    if off is not EMPTY and off[0] != 'reg' and s.p(40):
        off = ('attr', s.pick(['<<', '<', '>', '#']), off)
    r = reg(s.pick(['x', 'y', 'u', 's'] if s.draw(1) else names),
            s.w((5, ''), (1, '+'), (1, '++'), (1, '-x'), (1, '--x'), (1, 'x-')))
    a = [off, r]
    if s.p(5):
        a.append(EMPTY if s.draw(1) else r)
    ln = mem_line(s, g, [('arr', a)] if s.p(40) else a)
    lines = [org(0x3000), Line(None, 'nop'), ln, Line(lab('ahead')), fcb(1)]
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case, listing=False, symbols=False)
    return info(case, o, True, [])


often = bulk([rotate(lambda s, g: mem_line(s, g, good(s, g, set())), 8)], 2500)

PARTS = [Part('text', textcases.part(focus='mem'), 8000, 100000), Part('often', often, 500, 4000), Part('valid', valid, 67300, 500000), Part('matrix', matrix, 94200, 700000)]
ASSUME = ['reference postbytes were transcribed from the processors\' documentation by hand']
