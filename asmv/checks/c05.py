"""C05: expressions."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it evaluates an expression with at least one operator; distinct by source text and '
        'options')

OPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', '&&', '||']
FLOATS = ['0.5', '1.5', '2.', '.25', '3.75', '100.125', '1e'[:1] + '.0', '65535.9', '0.1', '12345.678', '1000000.5']
INTS = [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 0x7fff, 0x8000, 0xffff, 0x10000,
        0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abc, 0x7fffffffffffffff]


def text(s):
    hi = s.p(30)
    return ''.join(chr(s.i(0x80, 0xff) if hi and s.p(50) else s.i(32, 126)) for _ in range(s.i(1, 5)))


def leaf(s, g, vars_):
    k = s.draw(15)
    if k <= 5:
        return I(s.pick(INTS[:18]))
    if k == 6:
        return I(s.pick(INTS) if s.p(60) else s.i(0, (1 << s.i(1, 62)) - 1))
    if k == 7:
        return I(s.i(0, 0xffff))
    if k == 8:
        if s.p(30):
            return ('f', '%d.%s' % (s.i(0, 10 ** s.i(0, 9)), str(s.i(0, 10 ** s.i(1, 9) - 1)).rjust(s.i(1, 9), '0')))
        return ('f', s.pick(FLOATS))
    if k == 9:
        return ('chr', s.i(33, 126) if s.p(80) else s.i(128, 255))
    if k == 10:
        return S(text(s))
    if k == 11:
        return ('pc',)
    if k <= 14 and vars_:
        return ID(s.pick(vars_))
    return I(s.i(0, 20))


def tree(s, g, depth, vars_):
    if depth <= 0 or s.p(20):
        return leaf(s, g, vars_)
    k = s.draw(11)
    if k <= 7:
        op = s.pick(OPS)
        a = tree(s, g, depth - 1, vars_)
        if op in ('<<', '>>') and s.p(80):
            return ('o', op, a, I(s.pick([0, 1, 2, 3, 4, 8, 15, 16, 31, 32, 40, 62, 63])))
        if op in '/%' and s.p(60):
            return ('o', op, a, I(s.pick([1, 2, 3, 4, 7, 8, 10, 16, 256, 1000, -1, -2, -3, -7])))
        return ('o', op, a, tree(s, g, depth - 1, vars_))
    if k <= 9:
        return ('u', s.pick(['-', '+', '~', '!']), tree(s, g, depth - 1, vars_))
    if k == 10:
        return ('t', tree(s, g, depth - 1, vars_), tree(s, g, depth - 1, vars_), tree(s, g, depth - 1, vars_))
    # a chain at one level: associativity
    grp = s.pick([['+', '-'], ['*', '/', '%'], ['<<', '>>'], ['<', '<=', '>', '>='], ['==', '!='], ['&'], ['|'],
                  ['^'], ['&&'], ['||'], ['-', '+', '*'], ['<', '=='], ['&', '^', '|'], ['&&', '||'], ['&', '==']])
    grp = [('!=' if x == '=' else x) for x in grp]
    e = leaf(s, g, vars_)
    for _ in range(s.i(2, 4)):
        op = s.pick(grp)
        r = leaf(s, g, vars_)
        if op in ('<<', '>>'):
            r = I(s.i(0, 10))
        if op in '/%':
            r = I(s.i(1, 20))
        e = ('o', op, e, r)
    return e


def setup(s, g):
    """Some symbols of every type to refer to."""
    vars_ = []
    pre, post = [], []
    for i in range(s.i(0, 3)):
        n = 'v%d' % i
        v = s.pick([lambda: I(s.pick(INTS)), lambda: ('f', s.pick(FLOATS)), lambda: S('Az'), lambda: S(text(s)),
                    lambda: I(-s.i(0, 300)), lambda: ('u', '-', ('f', s.pick(FLOATS))),
                    lambda: ('o', s.pick('*-/'), I(s.pick(INTS)), ('u', '-', ('f', s.pick(FLOATS))))])()
        (pre if s.draw(1) else post).append(Line(lab(n), 'equ', [v]))
        vars_.append(n)
    return vars_, pre, post


def values(s, env):
    """Values seen through FCB/FDB/FQB, EQU (symbols file), and the top bits."""
    g = Gen(s)
    vars_, pre, post = setup(s, g)
    lines = [org(s.pick([0x1000, 0, 0x8000]))] + pre
    ops = 0
    n = s.i(1, 5)
    for i in range(n):
        e = tree(s, g, s.i(1, 4), vars_)
        ops += e[0] in 'out'
        k = s.draw(7)
        if k <= 1:
            lines.append(Line(None, 'fqb', [e]))
        elif k == 2:
            lines.append(Line(None, 'fdb', [e]))
        elif k == 3:
            lines.append(Line(None, 'fcb', [e]))
        elif k == 4:
            lines.append(Line(None, 'fqb', [('o', '>>', e, I(32))]))
        else:
            lines.append(Line(lab('r%d' % i), 'equ', [e]))
            lines.append(Line(None, 'fqb', [ID('r%d' % i)]))
    lines += post + [fcb(1)]
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case, listing=False, symbols=True)
    return info(case, o, ops > 0, ['%d expressions' % n], evals=n)


def positions(s, env):
    """Expressions in every operand position."""
    g = Gen(s)
    vars_, pre, post = setup(s, g)
    if any(x.args[0][0] == 's' for x in pre + post) and s.p(50):
        pass
    lines = [org(0x1000)] + pre
    e = tree(s, g, s.i(1, 3), vars_)
    small = ('o', '&', e, I(s.pick([7, 15, 63, 127, 255])))
    k = s.draw(15)
    six = g.isa == 6309
    nm = 'position %d' % k
    if k == 0:
        lines.append(Line(None, s.pick(['lda', 'ldx', 'cmpu', 'addd'] + (['ldq', 'ldw'] if six else [])),
                          [('attr', '#', e)]))
    elif k == 1:
        lines.append(Line(None, 'lda', [e]))
    elif k == 2:
        lines.append(Line(None, 'sty', [e, reg('u')]))
    elif k == 3:
        lines.append(Line(None, 'jmp', [('arr', [e])]))
    elif k == 4:
        lines.append(Line(None, 'lbne', [e]))
    elif k == 5:
        lines.append(Line(None, 'rmb', [small]))
    elif k == 6:
        lines.append(Line(None, 'fill', [e, small]))
    elif k == 7:
        lines += [Line(None, 'if', [e]), fcb(2), Line(None, 'else'), fcb(3), Line(None, 'endif')]
    elif k == 8:
        lines.append(Line(None, 'align', [('o', '+', small, I(1)), e]))
    elif k == 9:
        lines.append(Line(None, 'org', [('o', '&', e, I(0xfff))]))
    elif k == 10:
        lines.append(Line(None, 'setdp', [e]))
        lines.append(Line(None, 'lda', [I(0x1234)]))
    elif k == 11:
        lines.append(Line(None, 'leax', [e, reg('pcr')]))
    elif k == 12 and six:
        lines.append(Line(None, 'band', [reg('a'), ('o', '&', e, I(7)), I(3), small]))
    elif k == 13 and six:
        lines.append(Line(None, 'oim', [('attr', '#', e), e]))
    elif k == 14:
        lines += [Line(lab('m'), 'macro'), Line(None, 'fqb', [IP(1), ('o', '*', IP(1), I(3)), IP(2)]), Line(None, 'endm'),
                  Line(None, 'm', [e, small])]
    else:
        lines.append(Line(None, 'put', [('o', '&', e, I(0xfff))]))
    lines += [fcb(9)] + post
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case)
    return info(case, o, True, [nm])


def wrong(s, env):
    """Undefined operations and operands that are not values are reported."""
    g = Gen(s)
    vars_, pre, post = setup(s, g)
    k = s.draw(5)
    e = tree(s, g, s.i(0, 2), vars_)
    z = s.pick([I(0), ('o', '-', I(3), I(3)), ('f', '0.5'), ('u', '!', I(4)), ID('late')])
    big = s.pick([I(-1), I(64), I(65), I(100), I(-64), I(1 << 32), ('f', '64.5'), ('o', '-', ID('late'), I(1)), ('u', '-', I(63)), S('@'), S('ab')])
    if k <= 1:
        j = s.draw(4)
        if j <= 1:
            bad = ('o', '%', e, z)
        elif j == 2:
            z = s.pick([I(0), ('o', '-', I(3), I(3)), ('f', '0.0'), ('u', '!', I(4)), ID('late'), ('o', '*', I(0), ('u', '-', I(2)))])
            bad = ('o', '/', e, z)
        else:
            bad = ('o', s.pick(['<<', '>>']), e, big)
    elif k == 2:
        bad = ('o', s.pick(OPS), e, ID('nowhere'))
    elif k == 3:
        bad = ('u', s.pick('-+~!'), ID('nowhere'))
    elif k == 4:
        bad = ('o', s.pick(OPS), e, ID('aregister'))
    else:
        bad = ('t', ('o', '%', e, z), I(1), I(2))
    for _ in range(s.draw(2)):
        bad = ('o', s.pick(['+', '-', '*', '&']), I(s.i(1, 9)), bad)
    ln = Line(None, s.pick(['fcb', 'fdb', 'fqb']), [bad])
    if s.p(20):
        ln = Line(None, 'lda', [('attr', '#', bad)])
    lines = [org(0x1000), Line(lab('aregister'), 'equ', [reg('x')])] + pre + [ln, fcb(9)] + post + \
        [Line(lab('late'), 'equ', [I(0)])]
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case, listing=False, symbols=False)
    if not o.ok and len(case.files) == 1:
        at = '%s:%d:' % (MAIN, lines.index(ln) + 1)
        if at.encode() not in r.stderr:
            raise Violation('error at %s not reported: %s' % (at, r.stderr[:300].decode('latin-1')))
    return info(case, o, True, ['kind %d' % k])


def strings(s, env):
    """Strings of any length: compared, chosen, and in place of numbers."""
    g = Gen(s)
    lines = [org(0x1000)]
    pre, post = [], []
    n = 0
    for i in range(s.i(1, 4)):
        size = s.w((3, s.i(1, 12)), (3, s.pick([31, 32, 63, 64, 127, 128, 255, 256, 257, 300, 511, 512, 513])),
                   (2, s.i(1, 700)))
        unit = text(s)
        a = (unit * (size // len(unit) + 1))[:size]
        k = s.draw(6)
        at = s.pick([0, size - 1, size // 2, s.i(0, size - 1)])
        if k == 0:
            b = a
        elif k == 1:
            b = a[:at] or 'x'
        elif k == 2:
            b = a + s.pick(['x', ' ', '\xff'])
        elif k == 3:
            b = a[:at] + chr((ord(a[at]) ^ 0x20) if a[at].isalpha() else s.i(33, 126)) + a[at + 1:]
        elif k == 4:
            b = a[:at] + chr(s.i(0x80, 0xff)) + a[at + 1:]
        elif k == 5:
            b = a[:at] + chr(s.i(33, 126)) + a[at + 1:]
        else:
            b = text(s)
        x, y = S(a), S(b)
        if s.draw(1):
            x, y = y, x
        for j, nm in enumerate(('sa%d' % i, 'sb%d' % i)):
            if s.p(50):
                (pre if s.draw(1) else post).append(Line(lab(nm), 'equ', [(x, y)[j]]))
                if j:
                    y = ID(nm)
                else:
                    x = ID(nm)
        n += 1
        k = s.draw(5)
        cmp_ = ('o', s.pick(['<', '<=', '>', '>=', '==', '!=']), x, y)
        if k <= 2:
            lines.append(Line(None, 'fcb', [cmp_]))
        elif k == 3:
            lines.append(Line(None, s.pick(['fcc', 'fcn', 'fcs', 'fcv']), [('t', cmp_, x, y)]))
        elif k == 4:
            lines.append(Line(None, 'fqb', [('o', s.pick(OPS[:5] + OPS[7:]), x, y)]))
        else:
            lines.append(Line(None, 'fqb', [x, y, ('u', s.pick('-+~!'), x)]))
    case = Case({MAIN: pre + lines + post}, isa=g.isa)
    o, r = check(env, s, case, listing=False, symbols=True)
    return info(case, o, True, ['long' if any(len(l) > 200 for l in case.source().split('\n')) else 'short'], evals=n)


def deep(s, env):
    """Expressions of very many operators: nested to the left, to the right, or within parentheses."""
    g = Gen(s)
    vars_, pre, post = setup(s, g)
    vars_ = [v for v in vars_]
    n = s.w((2, s.i(5, 40)), (3, s.pick([15, 16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200])),
            (3, s.i(40, 300)), (2, s.pick([255, 256, 257, 300, 400, 500, 512, 513, 700, 1000, 1023, 1025, 1500])))
    mode = s.draw(5)
    small = [lambda: I(s.i(0, 9)), lambda: I(s.pick(INTS[:18])), lambda: ('pc',), lambda: ('chr', s.i(33, 126)),
             lambda: ('f', s.pick(['0.5', '1.5', '2.25'])) if s.p(10) else I(s.i(0, 300)),
             lambda: ID('last')]
    if s.p(30):
        small = small[:2]
    ops = s.pick([['+'], ['-'], ['+', '-'], ['&', '|', '^'], ['+', '-', '&', '|', '^', '<', '==', '!=', '>=', '&&', '||'],
                  ['-', '>>'], ['<', '>', '<=', '>='], ['&&', '||', '+'], ['-', '%', '/', '+']])
    e = s.pick(small)()
    for i in range(n):
        op = s.pick(ops)
        m = mode if mode < 4 else s.draw(3)
        if m == 0:
            e = ('o', op, e, s.pick(small)() if op not in '/%>>' else I(s.i(1, 9)))
        elif m == 1:
            e = ('o', op if op not in '/%>>' else '-', s.pick(small)(), e)
        elif m == 2:
            e = ('u', s.pick('-~!+' if s.p(80) else '-'), e)
        else:
            k = s.draw(2)
            x, y = s.pick(small)(), s.pick(small)()
            e = ('t', e, x, y) if k == 0 else ('t', x, e, y) if k == 1 else ('t', x, y, e)
    lines = [org(0x100)] + pre
    k = s.draw(4)
    if k == 0:
        lines.append(Line(None, 'fdb', [e]))
    elif k == 1:
        lines += [Line(lab('res'), 'equ', [e]), Line(None, 'fqb', [ID('res')])]
    elif k == 2:
        lines.append(Line(None, 'ldx', [('attr', '#', ('o', '&', e, I(0xffff)))]))
    elif k == 3:
        lines += [Line(None, 'if', [e]), fcb(1), Line(None, 'else'), fcb(2), Line(None, 'endif')]
    else:
        lines += [Line(lab('res'), 'set', [e]), Line(None, 'fcb', [('o', '>>', ID('res'), I(s.pick([0, 8, 24, 40])))])]
    lines += post + [Line(lab('last')), fcb(1)]
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case, listing=False, symbols=True)
    return info(case, o, True, ['%d+ operators' % (n // 100 * 100), ['left', 'right', 'unary', 'conditional', 'mixed', 'mixed'][mode]])


PARTS = [Part('text', textcases.part(focus='expr'), 8000, 100000), Part('deep', deep, 1500, 12000), Part('strings', strings, 12000, 90000), Part('values', values, 106500, 700000), Part('positions', positions, 45700, 300000),
         Part('wrong', wrong, 24300, 100000)]
ASSUME = ['IEEE double arithmetic of the host', 'overflow of 64-bit integers and conversions of '
          'out of range doubles are not judged']
