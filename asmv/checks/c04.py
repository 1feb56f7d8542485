"""C04: direct or extended addressing."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it has a plain memory operand assembled under an assumed direct page or with a forced '
        'size; distinct by source text and options')


def memops(g):
    return [m for m in gen.mnemonics(g.isa, 'mem')] + \
        (gen.mnemonics(6309, 'immem') * 2 if g.isa == 6309 else [])


PAGES = [0, 1, 2, 0x10, 0x7f, 0x80, 0xfe, 0xff]


def page_value(s):
    """SETDP argument."""
    k = s.draw(9)
    p = s.pick(PAGES)
    if k <= 5:
        return p
    if k == 6:
        return s.pick([-1, -2, -256])
    if k == 7:
        return p + 0x100 * s.i(1, 3)
    return s.i(0, 255)


def target(s, g, pages):
    """Address near a page that matters."""
    k = s.draw(7)
    pg = s.pick(pages or PAGES) & 0xff
    if k <= 3:
        v = pg << 8 | s.pick([0, 1, 0x7f, 0x80, 0xff, s.i(0, 255)])
    elif k == 4:
        v = ((pg + s.pick([1, -1])) & 0xff) << 8 | s.i(0, 255)
    elif k == 5:
        v = (pg << 8) + s.pick([-1, 256, 255, 0])
        if v < 0:
            return I(v)
    elif k == 6:
        v = 0x10000 * s.i(0, 2) + (pg << 8 | s.i(0, 255))
    else:
        v = s.i(0, 0xffff)
    k = s.draw(5)
    if k == 4:
        d = g.plan('const', value=I(v))
        if s.draw(1):
            g.define(d)
        return ID(d['name'])
    if k == 5:
        return ('o', '+', I(v - 1), I(1)) if v else I(v)
    return I(v)


def history(s, env):
    g = Gen(s)
    setdp = s.pick([-1, -1, 0, 1, 0xff, 0x20]) if s.draw(1) else -1
    pages = [setdp & 0xff] if setdp >= 0 else []
    if s.draw(1):
        g.put(org(s.pick([0x1000, 0, 0x100, 0x20f0, 0xff00])))
    seen = 0
    forced = 0
    for i in range(s.i(2, 16)):
        k = s.draw(9)
        if k == 0 or (k == 1 and not seen):
            p = page_value(s)
            pages.append(p)
            seen += 1
            g.put(Line(None, 'setdp', [I(p) if s.p(80) else ('o', '+', I(p - 1), I(1))]))
        elif k == 1:
            g.put(Line(None, 'section', [S(s.pick(['a', 'b', 'CODE']))]) if s.p(70) else
                  Line(None, s.pick(['CODE', 'data', 'bss'])))
        elif k == 2:
            j = s.draw(2)
            if j == 0:
                d = g.plan('label')
                g.define(d)
            elif j == 1:
                g.put(Line(None, 'rmb', [I(s.pick([1, 8, 0x40, 0xf0]))]))
            else:
                g.put(g.instr('inh'))
        else:
            t = target(s, g, pages)
            if s.p(20):
                r = g.ref(('label',))
                t = r or t
            if s.p(20):
                t = ('attr', s.pick('<>'), t)
                forced += 1
            m = s.pick(memops(g))
            args = [t]
            if g.table[m]['kind'] == 'immem':
                args = [('attr', '#', I(s.i(0, 255))), t]
            g.put(Line(None, m, args))
    for d in list(g.syms):
        if not d['done']:
            g.define(d)
    g.put(fcb())
    case = Case({MAIN: g.lines}, isa=g.isa, setdp=setdp)
    o, r = check(env, s, case)
    return info(case, o, bool(seen or forced or setdp >= 0),
                ['setdp option' if setdp >= 0 else 'no option', '%d setdp' % min(seen, 3)])


def inside(s, env):
    """SETDP inside macros, includes and conditionals."""
    case, g = program(s, ('setdp', 'section', 'macro', 'include', 'cond', 'org'), 16)
    case.setdp = s.pick([-1, 0, 0x10, 0x40])
    o, r = check(env, s, case)
    return info(case, o, case.setdp >= 0 or 'setdp' in case.source().lower(), [])


def long(s, env):
    """Thousands of lines, sections and changes of page."""
    g = Gen(s)
    n = s.pick([100, 257, 300, 600, 1000, 1030, 2000, 2050, 3000, 4100])
    often = s.pick([0, 1, 5, 30, 250])
    secs = [s.pick(['s%d', 'section%d', '%d']) % i for i in range(s.pick([1, 2, 5, 17, 33, 70, 130]))]
    setdp = s.pick([-1, -1, 0, 0x20])
    lines, pages = [org(s.pick([0, 0x1000]))], [setdp & 0xff] if setdp >= 0 else []
    ms = memops(g)
    for i, x in enumerate(secs):
        lines += [Line(None, 'section', [S(x)]), org(0x80 + 0xff00 // len(secs) * i)] if len(secs) > 5 else []
    for _ in range(s.i(1, 3)):
        p = page_value(s)
        pages.append(p)
        lines.append(Line(None, 'setdp', [I(p)]))
        if s.draw(1):
            lines.append(Line(None, 'section', [S(s.pick(secs))]))
    pool = [(m, [('attr', '#', I(s.i(0, 255)))] if g.table[m]['kind'] == 'immem' else []) for m in (s.pick(ms) for _ in range(6))]
    tg = [target(s, g, pages) for _ in range(5)]
    for _ in range(n):
        k = s.draw(999)
        if k < often:
            p = page_value(s)
            tg[s.draw(4)] = target(s, g, [p])
            lines.append(Line(None, 'setdp', [I(p)]))
        elif k < 3 * often:
            lines.append(Line(None, 'section', [S(s.pick(secs))]))
        elif k < 700:
            lines.append(Line(None, 'nop'))
        else:
            m, a = s.pick(pool)
            lines.append(Line(None, m, a + [s.pick(tg)]))
    for x in s.sample(secs, min(len(secs), 40)):
        lines += [Line(None, 'section', [S(x)])] + [Line(None, m, a + [t]) for m, a in pool[:2] for t in tg]
    for d in list(g.syms):
        if not d['done']:
            g.define(d)
    case = Case({MAIN: g.lines + lines + [fcb()]}, isa=g.isa, setdp=setdp)
    o, r = check(env, s, case)
    return info(case, o, True, ['%d+ lines' % (n // 1000 * 1000), '%d+ sections' % (len(secs) // 16 * 16)])


PARTS = [Part('text', textcases.part(focus='page'), 8000, 100000), Part('long', long, 600, 4000), Part('history', history, 115500, 800000), Part('inside', inside, 23100, 150000),
         Part('arguments', arguments(['setdp']), 4300, 15000)]
ASSUME = []
