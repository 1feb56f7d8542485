"""C08: symbols settle on one value."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it needs more than one pass, uses SET, or is rejected for a symbol; distinct by source '
        'and options')


def chain(s, env):
    """Chains of EQU in any order against the pass limit."""
    far = s.p(6)
    n = s.i(14, 90) if far else s.i(1, 14)
    order = list(range(n))
    k = s.draw(3)
    if k == 0:
        order.reverse()
    elif k == 1:
        order = s.shuffle(order)
    elif k == 2 and n > 2:
        order = order[1:] + order[:1]
    lines = [org(0x1000)]
    ends = s.pick([I(5), ('pc',), S('ab'), ('f', '2.5'), ID('there'), None])
    for i in order:
        if i == n - 1:
            if ends is None:
                e = ID('e0') if s.draw(1) else ID('nowhere')
            else:
                e = ends
        else:
            e = s.pick([ID('e%d' % (i + 1)), ('o', '+', ID('e%d' % (i + 1)), I(1))])
        lines.append(Line(lab('e%d' % i), 'equ', [e]))
        if s.p(30):
            lines.append(Line(None, 'fdb', [ID('e%d' % s.i(0, n - 1))]))
    if s.p(50):
        lines.insert(1, Line(None, s.pick(['fdb', 'lda', 'ldx', 'lbra']), [ID('e0')]))
    lines += [Line(lab('there'), 'nop'), fcb(1)]
    case = Case({MAIN: lines}, max_passes=s.w((3, 12), (2, s.i(1, 13)), (1, 20)) if not far else
                s.w((3, 255), (2, s.i(12, 100)), (1, min(255, n + s.i(0, 4)))))
    o, r = check(env, s, case, symbols=True)
    return info(case, o, o.passes > 1 or not o.ok, ['chain of %d' % (n if n < 15 else n // 20 * 20), 'accepted' if o.ok else 'rejected'])


def layout(s, env):
    """Symbols that decide sizes and places."""
    g = Gen(s, feat=('local', 'section', 'org', 'setdp'))
    names = ['k%d' % i for i in range(s.i(2, 7))]
    todo = list(names)
    g.put(org(s.pick([0x1000, 0, 0xf0, 0x7fe0, 0xfc])))
    if s.p(40):
        g.put(Line(None, 'setdp', [I(s.pick([0, 1, 0x10]))]))
    for _ in range(s.i(3, 18)):
        k = s.draw(13)
        r = ID(s.pick(names))
        if k == 0:
            g.put(Line(None, 'rmb', [('o', '&', r, I(s.pick([3, 7, 15])))]))
        elif k == 1:
            g.put(Line(None, 'lda', [r]))
        elif k == 2:
            g.put(Line(None, s.pick(['leax', 'ldd', 'jmp']), [r, reg('pcr')]))
        elif k == 3:
            g.put(Line(None, 'ldb', [('o', '-', r, ID(s.pick(names))), reg(s.pick('xyus'))]))
        elif k == 4:
            g.put(Line(None, 'org', [('o', '+', r, I(s.pick([0, 1, 0x100])))]))
        elif k == 5:
            g.put(Line(None, s.pick(['lbra', 'lbsr', 'fdb', 'ldx']), [r]))
        elif k == 6:
            g.put(Line(None, 'fdb', [('o', s.pick('+-*'), r, ID(s.pick(names)))]))
        elif k == 7:
            g.put(Line(None, 'align', [I(s.pick([2, 4, 16]))]))
        elif k == 8:
            g.put(Line(None, 'if', [('o', s.pick(['<', '>', '==', '&']), r, I(s.pick([1, 4, 0x1000, 0x1010])))]))
            g.put(Line(None, s.pick(['nop', 'fdb', 'rmb']), [I(1)]))
            if g.lines[-1].op == 'nop':
                g.lines[-1].args = None
            g.put(Line(None, 'endif'))
        elif k == 9:
            g.put(Line(None, 'rzb', [('o', '%', r, I(s.pick([3, 5])))]))
        elif todo:
            n = todo.pop(s.draw(len(todo) - 1))
            j = s.draw(5)
            if j == 5:
                # fractions, too, must settle
                e = ('o', '/', ID(s.pick(names)), I(s.pick([2, 3, 4, 7, 10, 64])))
                if s.draw(1):
                    e = ('o', '*', e, I(s.pick([3, 5, 100])))
                g.put(Line(lab(n), 'equ', [e]))
            elif j <= 1:
                g.put(Line(lab(n)))
            elif j == 2:
                g.put(Line(lab(n), 'equ', [('o', s.pick('+-'), ID(s.pick(names)) if s.draw(1) else ('pc',), I(s.i(0, 300)))]))
            elif j == 3:
                g.put(Line(lab(n), 'equ', [I(s.i(0, 0x1100))]))
            else:
                g.put(Line(lab(n), 'fcb', [I(1)]))
    for n in todo:
        g.put(Line(lab(n)))
    g.put(fcb(7))
    case = Case({MAIN: g.lines}, isa=g.isa, max_passes=s.w((4, 12), (1, s.i(1, 6))))
    o, r = check(env, s, case, symbols=s.p(60))
    return info(case, o, o.passes > 1 or not o.ok, ['%d passes' % o.passes])


def setsyms(s, env):
    """SET symbols through straight code, macros, conditionals and sections."""
    lines = [org(0x2000)]
    names = ['v', 'w1', 'Z']
    live = []
    size = s.w((60, s.i(3, 20)), (1, s.i(100, 1500)))
    for _ in range(size):
        k = s.draw(9)
        if k <= 2 or not live:
            n = s.pick(names)
            e = I(s.i(-5, 300))
            if n in live and s.p(60):
                e = ('o', s.pick('+-*'), ID(n), I(s.i(1, 3)))
            elif live and s.p(30):
                e = ID(s.pick(live))
            elif s.p(15):
                e = s.pick([('pc',), S('hi'), ('f', '1.5')])
            lines.append(Line(lab(n), 'set', [e]))
            if n not in live:
                live.append(n)
        elif k == 3:
            lines.append(Line(None, 'if', [('o', s.pick(['<', '>', '&']), ID(s.pick(live)), I(s.i(0, 20)))]))
            lines.append(Line(lab(s.pick(live)), 'set', [I(s.i(0, 99))]))
            lines.append(Line(None, 'endif'))
        elif k == 4:
            lines.append(Line(lab('q%d' % len(lines)), 'equ', [ID(s.pick(live))]))
        elif k == 5:
            lines.append(Line(None, 'rmb', [('o', '&', ID(s.pick(live)), I(3))]))
        elif k == 6:
            lines.append(Line(None, 'section', [S(s.pick('ab'))]))
        else:
            lines.append(Line(None, s.pick(['fdb', 'fcb', 'fqb', 'lda', 'ldx']), [ID(s.pick(live))]))
    lines.append(fcb(1))
    if s.p(30):
        lines.insert(1, Line(None, 'fdb', [ID('late')]))
        lines.append(Line(lab('late')))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, symbols=True)
    return info(case, o, True, ['%d+ lines' % (size // 100 * 100)])


def errors(s, env):
    """Redefinition and undefined symbols anywhere in a valid program."""
    case, g = program(s, ('local', 'section', 'org', 'cond', 'macro', 'include', 'str'), 10)
    lines = case.files[MAIN]
    k = s.draw(5)
    at = s.i(0, len(lines))
    names = [d['name'] for d in g.syms if d['kind'] != 'set'] or ['only']
    n = s.pick(names)
    if k == 0:
        new = Line(lab(n), s.pick([None, 'nop']))
    elif k == 1:
        new = Line(lab(n), 'equ', [I(s.i(0, 9))])
    elif k == 2:
        new = Line(None, s.pick(['fdb', 'lda', 'lbra', 'rmb', 'fcb']), [ID('never')])
    elif k == 3:
        new = Line(None, 'fdb', [('fw' if s.draw(1) else 'b', s.pick([7, 8]))])
    elif k == 4:
        new = Line(lab('x1'), 'equ', [('o', '+', ID('x1'), I(1))])
    else:
        new = Line(lab('x1'), 'equ', [ID('x2')])
        lines.append(Line(lab('x2'), 'equ', [('o', '+', ID('x1'), I(s.draw(1)))]))
    lines.insert(min(at, len(lines)), new)
    o, r = check(env, s, case)
    return info(case, o, not o.ok, ['kind %d' % k])


def many(s, env):
    """Symbol tables of all sizes."""
    n = s.pick([20, 50, 100, 300, 600, 1000, 1500, 2000, 3000, s.pick([4090, 5000, 8180])]) + s.i(0, 20)
    style = s.draw(3)
    names = []
    for i in range(n):
        if style == 0:
            nm = 'sym%d' % i
        elif style == 1:
            nm = 'l' + format(i * 7919 % 100003, 'x') + '_'
        elif style == 2:
            nm = 'A' * (1 + i % 40) + 'b%d' % i
        else:
            nm = 'n.%05d.%d' % (i * i % 99991, i)
        names.append(nm)
    lines = [org(0x400)]
    defs = s.shuffle(list(range(n))) if s.draw(1) else list(range(n))
    if s.draw(1):
        for i in range(0, n, s.i(1, 9)):
            lines.append(Line(None, 'fdb', [ID(names[(i * 31 + 7) % n])]))
    j = s.draw(2)
    for i in defs:
        if j == 0 or (j == 1 and i & 1):
            lines.append(Line(lab(names[i]), 'equ', [I(i * 3)]))
        else:
            lines.append(Line(lab(names[i]), 'nop'))
    for i in range(0, n, s.i(1, 9)):
        lines.append(Line(None, 'fdb', [ID(names[(i * 17 + 3) % n])]))
    if s.p(10):
        lines.append(Line(lab(names[s.i(0, n - 1)]), 'equ', [I(1)]))
    case = Case({MAIN: lines})
    case.render(render.Style())
    o, r = core.diff(case, env, fmt=fmt_for(s), listing=False, symbols=True)
    return info(case, o, True, ['%d symbols' % (n // 100 * 100)])


def whole(s, env):
    case, g = program(s, ALL, 20, 9)
    o, r = check(env, s, case, symbols=True)
    return info(case, o, o.passes > 1 or not o.ok, [])


def fractions(s, env):
    """Chains of symbols with fractional values depending on later addresses."""
    n = s.i(2, 5)
    lines = [org(s.pick([0, 0, 0x20, 0x1000]))]
    steps = []
    for i in range(n):
        nxt = ID('f%d' % (i + 1)) if i < n - 1 else ID('last')
        k = s.draw(4)
        steps.append(Line(lab('f%d' % i), 'equ', [
            nxt if k == 0 else ('o', '/', nxt, I(s.pick([2, 3, 4, 5, 8, 10]))) if k <= 2 else
            ('o', s.pick('+-'), nxt, s.pick([I(s.i(0, 9)), ('f', s.pick(['0.5', '0.25', '3.75']))])) if k == 3 else
            ('o', '*', nxt, s.pick([I(3), ('f', '0.5')]))]))
    use = ('o', '*', ID('f%d' % s.i(0, n - 1)), I(s.pick([1, 10, 100])))
    lines.append(Line(None, s.pick(['fdb', 'fqb']), [use, ID('f%d' % s.i(0, n - 1))]))
    lines += steps if s.draw(1) else s.shuffle(steps)
    for _ in range(s.i(1, 4)):
        k = s.draw(3)
        lines.append(Line(None, 'ldx', [('attr', '<', ID('last'))]) if k == 0 else
                     Line(None, s.pick(['ldx', 'lda', 'jmp']), [ID('last')]) if k == 1 else
                     Line(None, 'leax', [ID('last'), reg('pcr')]) if k == 2 else
                     Line(None, 'rmb', [('o', '&', ID('f%d' % s.i(0, n - 1)), I(7))]))
    lines += [Line(lab('last')), fcb(1)]
    if s.p(30):
        lines.insert(1, Line(None, 'setdp', [I(0)]))
    case = Case({MAIN: lines}, max_passes=s.w((3, 12), (1, s.i(2, 8))))
    o, r = check(env, s, case, symbols=True)
    return info(case, o, o.passes > 1 or not o.ok, ['%d passes' % o.passes])


def kinds(s, env):
    """Symbols of any type whose value is decided by what is known in later passes."""
    n = s.i(1, 3)
    depth = s.i(1, 4)
    lines, uses = [], []
    for i in range(n):
        nm = 'q%d' % i
        fam = s.draw(3)
        if fam == 0:
            vals = [reg(r) for r in s.shuffle(list('xyus'))[:3]]
            uses.append(s.pick([lambda: Line(None, 'leax', [I(s.pick([0, 1, 100])), ID(nm)]), lambda: Line(None, 'lda', [reg('b'), ID(nm)]),
                                lambda: Line(None, 'tfr', [ID(nm), reg('d')]), lambda: Line(None, 'pshs', [reg('a'), ID(nm)])
                                if reg('s') not in vals else Line(None, 'exg', [ID(nm), reg('x')])])())
        else:
            t = ''.join(chr(s.i(33, 126)) for _ in range(s.i(1, 4)))
            vals = s.pick([lambda: [S(t[:-1] or 'z'), S(t), S(t + 'k')], lambda: [S(t), S(t[::-1] + 'a'), S('b' + t)],
                           lambda: [I(s.i(-2, 3)), I(s.i(0, 0x180)), I(s.i(0xfe, 0x12345))],
                           lambda: [('f', s.pick(['1.5', '2.0', '2.25'])), ('f', s.pick(['1.25', '2.5', '300.0'])), I(2)],
                           lambda: [I(65), S('A'), ('f', '65.0')], lambda: [S('A'), S('a'), S('AA')]])()
            vals = s.shuffle(vals)
            uses.append(Line(None, s.pick(['fdb', 'fcc', 'fqb', 'ldx', 'lda', 'fcs']), [ID(nm)]))
            if uses[-1].op[:2] == 'ld' and s.draw(1):
                uses[-1].args = [('attr', '#', ID(nm))]
        c = [s.pick([lambda: ('o', s.pick(['>', '==', '!=', '>=']), ID('n%d' % s.draw(depth - 1)), I(s.i(0, 3))),
                     lambda: ('o', s.pick(['>', '<']), ID('last'), I(s.pick([0, 3, 6, 0x100]))),
                     lambda: ID('n%d' % s.draw(depth - 1))])() for _ in range(2)]
        lines += [Line(None, 'if', [c[0]]), Line(lab(nm), 'equ', [vals[0]])]
        if s.draw(1):
            lines += [Line(None, 'elsif', [c[1]]), Line(lab(nm), 'equ', [vals[1]])]
        lines += [Line(None, 'else'), Line(lab(nm), 'equ', [vals[2]]), Line(None, 'endif')]
    equs = [Line(lab('n%d' % i), 'equ', [ID('n%d' % (i + 1)) if i < depth - 1 else s.pick([I(s.i(0, 3)), ID('last')])])
            for i in range(depth)]
    if s.p(30):
        equs = s.shuffle(equs)
    cut = s.w((6, len(uses)), (1, 0), (1, s.draw(len(uses))))
    lines = [org(s.pick([0, 0x1000]))] + uses[:cut] + lines + uses[cut:] + equs + [Line(lab('last')), fcb(1)]
    case = Case({MAIN: lines}, max_passes=s.w((5, 12), (1, s.i(2, 8))))
    o, r = check(env, s, case, symbols=s.p(50))
    return info(case, o, o.passes > 1 or not o.ok, ['%d passes' % o.passes])


def alike(s, env):
    """Names that differ in a single place, however long."""
    n = s.pick([1, 5, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 200, 254, 255, 256, 400, 1023, 1024, 5000]) + s.draw(1)
    base = [s.pick('abcxyzABC019_.') for _ in range(n)]
    base[0] = s.pick('LM_')
    if n > 3:
        base[-2:] = s.pick(['ab', 'xz', 'Lq', '1z', 'mn'])
    names = []
    for _ in range(s.i(2, 30)):
        at = s.w((3, n - 1), (1, n // 2), (1, 0 if n == 1 else 1), (1, s.draw(n - 1)))
        c = list(base)
        c[at] = s.pick('abcdefghijkmnopqrtvzABCDEFGHIJKMNOPQRTVZ0123456789_.' if at else 'LMN_lmnGgHh')
        if n > 2 and s.p(30):
            # same letters in another order, or the same sum by the usual hashes
            j = s.w((2, n - 2), (1, s.i(1, n - 2)))
            c = list(base)
            m = s.pick([0, 1, 31, 33, 65, 37])
            if m == 0:
                c[j], c[j + 1] = c[j + 1], c[j]
            else:
                a, b = chr(ord(c[j]) + 1), chr(max(33, ord(c[j + 1]) - m))
                if (a + b).isalnum() and (a + b).isascii() and (j or not a.isdigit()):
                    c[j], c[j + 1] = a, b
        nm = s.w((5, ''.join(c)), (1, ''.join(c) + s.pick('aA_9')), (1, ''.join(c[:-1])), (1, ''.join(c).swapcase()))
        if nm not in names and len(nm) > 1 and not nm[0].isdigit():
            names.append(nm)
    if not names:
        names = ['only']
    if n < 4:
        names = ['zz' + x for x in names]
    defs = [Line(lab(x), 'equ', [I(i * 7 + 1)]) if i & 1 else Line(lab(x), 'nop') for i, x in enumerate(names)]
    uses = [Line(None, 'fdb', [ID(s.pick(names)), ID(s.pick(names))]) for _ in range(s.i(1, 8))]
    lines = [org(0x1000)] + (uses + defs if s.draw(1) else defs + uses)
    if s.p(15):
        lines.append(Line(None, 'fdb', [ID('zz' + s.pick(names)[:-1] + 'Q')]))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, symbols=True)
    return info(case, o, True, ['names of %d' % n])


PARTS = [Part('text', textcases.part(focus='sym', symbols=60), 8000, 100000), Part('kinds', kinds, 18100, 200000), Part('alike', alike, 2300, 20000), Part('chain', chain, 18100, 200000), Part('fractions', fractions, 9000, 100000), Part('layout', layout, 30100, 400000),
         Part('setsyms', setsyms, 15100, 150000), Part('errors', errors, 12000, 120000),
         Part('many', many, 360, 4000), Part('whole', whole, 9000, 120000),
         Part('arguments', arguments(['equ', 'set'], label=True), 3800, 25000)]
ASSUME = []
