"""C09: local labels."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = 'a program counts when it refers to local labels with more than one candidate; distinct by source'

NUMS = [0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 255, 256, 65535, 100000, 2147483647, 4294967296]


class LG:
    """Generator of local label soup."""

    def __init__(self, s, nums):
        self.s = s
        self.nums = nums
        self.refs = 0
        self.defs = 0
        self.macros = []
        self.files = {}
        self.late = []

    def ref(self):
        s = self.s
        self.refs += 1
        n = s.pick(self.nums)
        k = s.draw(9)
        if n == 0 and k >= 7:
            return s.pick([('lt',), ('gt',)])
        e = (s.pick(['b', 'fw']), n)
        if k == 6:
            return ('o', s.pick('+-'), e, I(s.i(1, 5)))
        if k == 5:
            return ('o', '-', e, (s.pick(['b', 'fw']), s.pick(self.nums)))
        return e

    def use(self):
        s = self.s
        e = self.ref()
        k = s.draw(7)
        if e[0] in ('lt', 'gt'):
            return Line(None, s.pick(['lbra', 'fdb', 'ldx', 'jmp']), [e])
        if k <= 2:
            return Line(None, 'fdb', [e])
        if k == 3:
            return Line(None, s.pick(['lbra', 'lbne', 'lbsr']), [e])
        if k == 4:
            return Line(None, s.pick(['ldx', 'jmp', 'lda']), [e])
        if k == 5:
            return Line(None, s.pick(['leax', 'ldd']), [e, reg('pcr')])
        if k == 6:
            return Line(None, 'ldu', [('attr', '#', e)])
        return Line(None, 'fcb', [('o', '&', e, I(255))])

    def body(self, n, depth, macro_ok=True, sect=True):
        s = self.s
        out = []
        for _ in range(n):
            k = s.draw(19)
            if k <= 7:
                self.defs += 1
                ln = s.pick([lambda: Line(), lambda: Line(None, 'nop'), lambda: fcb(s.i(0, 9)),
                             lambda: Line(None, 'rmb', [I(s.i(1, 3))]), lambda: Line(None, 'equ', [I(s.i(0, 99))]),
                             lambda: Line(None, 'org', [('o', '+', ('pc',), I(s.i(1, 9)))]), self.use])()
                ln.label = ('n', s.pick(self.nums))
                out.append(ln)
            elif k <= 14:
                out.append(self.use())
            elif k == 15 and sect:
                ln = Line(None, 'section', [S(s.pick(['a', 'b', 'CODE']))]) if s.draw(1) else \
                    Line(None, s.pick(['CODE', 'data']))
                if s.p(40):
                    ln.label = ('n', s.pick(self.nums))
                    self.defs += 1
                out.append(ln)
            elif k == 16 and depth:
                nm = 'f%d.s' % len(self.files)
                self.files[nm] = None
                self.files[nm] = self.body(s.i(1, 5), depth - 1, macro_ok, sect)
                for _ in range(s.i(1, 2)):
                    out.append(Line(None, 'include', [S(nm)]))
            elif k == 17 and self.macros and macro_ok:
                ln = Line(None, s.pick(self.macros))
                if s.p(20):
                    ln.label = ('n', s.pick(self.nums))
                out.append(ln)
            elif k == 18:
                moving = self.late and s.p(70)
                if moving:
                    c = ID(s.pick(self.late))
                    c = s.pick([c, ('u', '!', c), ('o', '>', c, I(s.i(0, 3)))])
                else:
                    c = I(s.draw(1))
                out.append(Line(None, 'if', [c]))
                out += self.body(s.i(0, 3), depth - 1 if moving and depth else 0, moving and macro_ok, sect)
                if s.draw(1):
                    out.append(Line(None, 'else'))
                    out += self.body(s.i(0, 2), depth - 1 if moving and depth else 0, moving and macro_ok, sect)
                out.append(Line(None, 'endif'))
            else:
                out.append(Line(comment=s.pick(['', '; c'])))
        return out


def moving(s, env):
    """Conditions on symbols defined later: the lines assembled differ from pass to pass."""
    return soup(s, env, s.i(1, 3))


def soup(s, env, late=0):
    nums = s.sample(NUMS, s.i(1, 4)) if s.p(40) else [0, 1, 2][:s.i(1, 3)]
    g = LG(s, nums)
    g.late = ['late%d' % i for i in range(late)]
    lines = [org(s.pick([0x1000, 0x100, 0]))]
    for i in range(s.i(0, 2)):
        lines.append(Line(lab('m%d' % i), 'macro'))
        lines += g.body(s.i(1, 4), 0, False, False)
        lines.append(Line(None, 'endm'))
        g.macros.append('m%d' % i)
    # mostly make sure references find something
    fence = s.p(80)
    secs = ['CODE', 'a', 'b', 'data']
    body = g.body(s.i(3, 24), 2)
    if fence:
        used = ['CODE'] + [x for x in secs[1:] if any(
            (l.op == 'section' and l.args[0][1] == [x]) or l.op == x
            for f in [body] + list(g.files.values()) for l in f)]
        for x in reversed(used):
            if x != 'CODE' or len(used) > 1:
                lines.append(Line(None, 'section', [S(x)]))
            lines += [Line(('n', n)) for n in nums]
    lines += body
    if fence:
        for x in used:
            if x != 'CODE' or len(used) > 1:
                lines.append(Line(None, 'section', [S(x)]))
            lines += [Line(('n', n), 'nop') for n in nums]
    lines.append(fcb(1))
    for n in g.late:
        lines.append(Line(lab(n), *s.pick([('equ', [I(s.i(0, 5))]), ('equ', [I(0)]), ('nop', None), (None, None),
                                           ('equ', [ID(s.pick(g.late))]), ('equ', [('o', '-', ('pc',), I(s.i(0, 9)))])])))
    files = {MAIN: lines}
    files.update(g.files)
    case = Case(files)
    o, r = check(env, s, case, symbols=False)
    return info(case, o, g.refs > 0 and g.defs > 1, ['%d labels' % len(nums)])


def crowd(s, env):
    """Hundreds of occurrences: search structure of any shape, inserted and
    searched in every order."""
    n = s.pick([20, 60, 150, 400, 800])
    nums = [1] if s.draw(1) else [1, 2, 5]
    lines = [org(0x400)]
    a = s.pick([3, 7, 11, 19, 101])
    pat = s.draw(3)
    secs = s.p(30)
    x = s.i(1, 10000)
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        k = (i % a) if pat == 0 else (x >> 16) % a
        if secs and (x >> 8) % 37 == 0:
            lines.append(Line(None, 'section', [S('s%d' % ((x >> 4) & 3))]))
            continue
        m = nums[(x >> 5) % len(nums)]
        if k < 2:
            lines.append(Line(('n', m)))
        elif k == 2 or pat == 3:
            lines.append(Line(None, 'fdb', [(('b', 'fw')[(x >> 9) & 1], m)]))
        elif pat == 2:
            lines.append(Line(('n', m), 'fdb', [(('b', 'fw')[(x >> 9) & 1], m)]))
        else:
            lines.append(Line(None, 'nop'))
    used = ['CODE'] + (['s%d' % i for i in range(4)] if secs else [])
    head, tail = [], []
    for u in used:
        if secs:
            head.append(Line(None, 'section', [S(u)]))
            tail.append(Line(None, 'section', [S(u)]))
        head += [Line(('n', m)) for m in nums]
        tail += [Line(('n', m)) for m in nums]
    if secs:
        head.append(Line(None, 'section', [S('CODE')]))
    lines = lines[:1] + head + lines[1:] + tail + [fcb(0)]
    case = Case({MAIN: lines}).render(render.Style())
    o, r = core.diff(case, env, fmt=fmt_for(s), listing=s.p(20))
    return info(case, o, True, ['%d lines' % n])


def missing(s, env):
    """A reference with no matching label is an error on its line."""
    nums = [1, 2]
    lines = [org(0x1000)]
    for _ in range(s.i(0, 4)):
        lines.append(Line(('n', s.pick(nums))))
    if s.draw(1):
        lines.append(Line(None, 'section', [S('z')]))
    ln = Line(None, s.pick(['fdb', 'lbra', 'ldx', 'fcb']), [(s.pick(['b', 'fw']), s.pick(nums))])
    lines.append(ln)
    if s.draw(1):
        lines.append(Line(None, 'section', [S('y')]))
    for _ in range(s.i(0, 4)):
        lines.append(Line(('n', s.pick(nums)), 'nop'))
    lines.append(fcb(1))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, symbols=False)
    if not o.ok:
        at = '%s:%d:' % (MAIN, lines.index(ln) + 1)
        if at.encode() not in r.stderr:
            raise Violation('missing local label at %s not reported: %s' % (at, r.stderr[:300].decode('latin-1')))
    return info(case, o, True, [])


def far(s, env):
    """Labels and references many lines apart, at distances of all sizes."""
    top = s.w((20, 300), (20, 1100), (10, 5000), (2, 70000))
    gaps = [g for g in [1, 2, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 510, 511, 512, 1022, 1023, 1024, 2046, 2047, 2048,
                        4094, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536] if g <= top]
    lines = [org(0x400), Line(('n', 1)), Line(('n', 2))]
    secs = s.p(20)
    budget = 2 * top + 2000
    for i in range(s.i(4, 30)):
        m = s.i(1, 2)
        k = s.draw(5)
        if k <= 1:
            lines.append(Line(('n', m), s.pick([None, 'nop'])))
        elif k <= 3:
            lines.append(Line(None, 'fdb', [(s.pick(['b', 'fw']), m)]))
        elif k == 4:
            lines.append(Line(('n', m), 'fdb', [(s.pick(['b', 'fw']), 3 - m)]))
        elif secs:
            lines.append(Line(None, 'section', [S(s.pick(['CODE', 'q']))]))
        else:
            lines.append(fcb(i))
        g = s.pick(gaps[-6:]) if s.p(40) else s.pick(gaps) if s.p(40) else s.i(0, 3)
        g = max(0, g - s.draw(1) * s.i(0, 4))
        if g > budget:
            continue
        budget -= g
        lines += [Line()] * g
    lines = [Line(l.label, l.op, l.args) if l.op or l.label else l for l in lines]
    for u in ['CODE', 'q'] if secs else []:
        lines += [Line(None, 'section', [S(u)]), Line(('n', 1)), Line(('n', 2))]
    lines += [Line(('n', 1)), Line(('n', 2)), fcb(0)]
    if secs:
        lines[1:1] = [Line(None, 'section', [S('q')]), Line(('n', 1)), Line(('n', 2)), Line(None, 'section', [S('CODE')])]
    case = Case({MAIN: lines}).render(render.Style())
    o, r = core.diff(case, env, fmt=fmt_for(s), listing=False)
    return info(case, o, True, ['%d+ lines' % (len(lines) // 2000 * 2000 if len(lines) < 20000 else len(lines) // 40000 * 40000)])


PARTS = [Part('text', textcases.part(focus='local'), 8000, 100000), Part('far', far, 800, 6000), Part('soup', soup, 63300, 500000), Part('moving', moving, 34100, 300000),
         Part('crowd', crowd, 2900, 20000), Part('missing', missing, 12200, 60000)]
ASSUME = []
