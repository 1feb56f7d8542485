"""C15: listings."""
from .. import textcases
from .common import *   # noqa: F401,F403
from .c13 import PG

RULE = ('a case counts when the listing has at least one line with bytes and one without; distinct by source')


def nontriv(o):
    return any(d for _, _, _, d in o.listing) and any(not d for _, _, _, d in o.listing)


def programs(s, env):
    case, g = program(s, ALL, 16)
    o, r = check(env, s, case, listing=True, symbols=False)
    return info(case, o, o.ok and nontriv(o), [])


def structure(s, env):
    """Small programs full of includes, macros, conditionals and sections."""
    g = Gen(s, isa=6809, feat=('macro', 'include', 'cond', 'section', 'local', 'put'))
    g.put(org(s.pick([0, 0x1000, 0xfe00])))
    for k in range(4):
        g.put(Line(('n', k)))
    g.nlocal = 4
    for _ in range(s.i(2, 8)):
        s.w((3, g.macrodef), (5, g.call), (4, g.include), (4, g.cond), (2, g.section),
            (2, lambda: g.put(g.data())), (1, lambda: g.put(g.instr())), (1, lambda: g.put(Line())))()
    for k in range(4):
        g.put(Line(('n', k)))
    g.put(fcb(1))
    files = {MAIN: g.lines}
    files.update(g.files)
    case = Case(files)
    o, r = check(env, s, case, listing=True, symbols=False)
    return info(case, o, o.ok and nontriv(o), [])


ODD = ['\t', ' ', '  \t ', 'x', '"', '/', '\\', '&', '\xe9', '\xff', '\x01', '\x1b', '\x7f', '\x80', ';', '*', "'", '%s%n', '\x0c',
       '\x0b']


def overlays(s, env):
    """Code assembled for one place and loaded at another: the bytes listed are
    those of the line, at its own address."""
    g = PG(s)
    lines = [org(s.pick([0, 0x1000]))]
    for _ in range(s.i(1, 4)):
        lines += g.overlay()
        for _ in range(s.i(0, 3)):
            lines.append(g.step())
    lines.append(fcb(1))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, listing=True, symbols=False)
    return info(case, o, o.ok and nontriv(o), [])


def around(s, env):
    """Addresses below zero, at the top of the address space and beyond it."""
    lines = [org(s.pick([0, -1, -3, -0x100, 0xfffc, 0x8000]))]
    for i in range(s.i(2, 10)):
        k = s.draw(8)
        if k == 0:
            lines.append(org(s.pick([-1, -2, -16, -0x8000, 0, 0xfffd, 0xffff, 0x1ffff, s.i(-300, 300)])))
        elif k == 1:
            lines.append(Line(lab('l%d' % i)))
        elif k == 2:
            lines.append(Line(lab('l%d' % i), s.pick(['equ', 'set']), [s.pick([('pc',), I(s.i(-300, 70000)), ('f', '1.5'), S('text'), ID('l1')])]))
        elif k == 3:
            lines.append(Line(s.pick([None, ('n', 1)]), 'rmb', [I(s.i(0, 5))]))
        elif k == 4:
            lines.append(Line(None, 'setdp', [I(s.i(-1, 255))]))
        elif k == 5:
            lines.append(Line(('n', 1)))
        elif k == 6:
            lines.append(Line(None, 'put', [I(s.i(0, 0xff) << 8)]))
        else:
            lines.append(s.pick([fcb(i), Line(lab('l%d' % i), 'nop'), Line(None, 'fdb', [('pc',)]), Line(None, 'leax', [('pc',), reg('pcr')])]))
    if not any(l.label == lab('l1') for l in lines):
        lines.append(Line(lab('l1')))
    case = Case({MAIN: lines})
    o, r = check(env, s, case, listing=True, symbols=False, fmt='S')
    return info(case, o, o.ok and nontriv(o), [])


def text(s, env):
    """Odd text: tabs at any column, control and high characters, very long
    lines, all kinds of line endings."""
    lines = [org(0x1000)]
    for _ in range(s.i(1, 12)):
        k = s.draw(7)
        odd = ''.join(s.pick(ODD) for _ in range(s.i(0, 12)))
        if s.p(6):
            odd = (odd or 'long ') * s.pick([20, 300, 2000])
        if k == 0:
            t, ln = '', Line()
            t = s.pick(['* ', '; ', ' ; ', '\t;']) + odd
        elif k == 1:
            ln = Line(None, 'nop')
            t = s.pick([' nop', '\tnop', '  \t nop \t', '\tNOP\t']) + s.pick(['', ' ;' + odd, '\t;' + odd, ' ' * s.i(0, 30)])
        elif k == 2:
            ln = Line(None, 'fcb', [I(s.i(0, 255)) for _ in range(s.i(1, 40))])
            t = '\t fcb\t' + ',\t '.join('%d' % a[1] for a in ln.args) + ' ;' + odd
        elif k == 3:
            st = ''.join(c for c in odd if c not in '/"\\&' and '%' not in c)[:600] or 'a'
            ln = Line(None, 'fcc', [S(st)])
            t = '\tfcc\t/%s/\t; %s' % (st, odd)
        elif k == 4:
            n = 'lab%d' % len(lines)
            ln = Line(lab(n), s.pick([None, 'nop']))
            t = n + s.pick(['', ' ', '\t']) if ln.op is None else n + '\t\tnop;' + odd
        elif k == 5:
            ln = Line(None, s.pick(['opt', 'ttl', 'sttl', 'nam', 'name', 'page', 'spc']))
            t = '\t%s\tanything' % ln.op if ln.op in ('opt', 'ttl', 'sttl') else '\t%s' % ln.op
        elif k == 6:
            n = s.i(0, 600)
            ln = Line(None, 'rzb', [I(n), I(s.i(0, 255))])
            t = '\trzb\t%d , %d' % (n, ln.args[1][1])
        else:
            n = s.i(0, 300)
            ln = Line(None, 'rmb', [I(n)])
            t = '\trmb %d' % n
        ln.text = t
        lines.append(ln)
    lines[0].text = '\torg\t$1000'
    eol = s.pick(['\n', '\n', '\r\n'])
    src = eol.join(l.text for l in lines) + (eol if s.p(80) or not lines[-1].text else '')
    case = Case({MAIN: lines})
    case.texts = {MAIN: src}
    o, r = core.diff(case, env, fmt='S', listing=True)
    return info(case, o, o.ok and nontriv(o), [])


def rebuild(s, env):
    """The generated code can be put together from the listing alone."""
    if s.draw(1):
        g = PG(s)
        lines = []
        for _ in range(s.length(3, 25, 10)):
            l = g.step()
            if l.op != 'put':
                lines.append(l)
        lines.append(fcb(1))
        case = Case({MAIN: lines})
    else:
        case, g = program(s, ('macro', 'include', 'cond', 'section', 'org', 'str', 'local', 'set', 'setdp'), 14)
    case.render(style_for(s, case.isa))
    r = run.asm(env, case.options() + ['-S', '-o', 'out', '-l', 'out.lst', MAIN], case.write(), ['out', 'out.lst'])
    if r.rc:
        raise Discard('rejected')
    try:
        img = outputs.srec(r.out['out'])
    except outputs.Bad as e:
        raise Violation('malformed output: %s' % e)
    mem = {a + i: b for a, d in img.segs for i, b in enumerate(d)}
    got = {}
    for l in r.out['out.lst'].decode('latin-1').split('\n'):
        head = l[:6] if len(l) > 6 and l[4:6] == '  ' else ''
        try:
            a = int(head[:4], 16) if head.strip() else None
        except ValueError:
            a = None
        if a is None or l.startswith(' '):
            continue
        k = 6
        while k + 1 < len(l) and l[k] in '0123456789ABCDEF' and l[k + 1] in '0123456789ABCDEF':
            v = int(l[k:k + 2], 16)
            if a in got:
                raise Violation('listing shows two bytes at $%04X' % a)
            got[a] = v
            a += 1
            k += 2
    if got != mem:
        bad = sorted(x for x in set(got) | set(mem) if got.get(x) != mem.get(x))
        raise Violation('at $%04X the listing shows %s, the output has %s' % (bad[0], got.get(bad[0]), mem.get(bad[0])))
    return Info(len(mem) > 1, ['rebuilt'], case.source(), case.digest())


def long(s, env):
    """Thousands of lines, in files and macros, each listed once and in place."""
    n = s.pick([99, 100, 101, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 5000, 8192])
    files = {}
    lines = [org(0)]
    room = 0xc000

    def run_of(n):
        nonlocal room
        out = []
        while len(out) < n:
            k = s.draw(9)
            m = min(n - len(out), s.pick([1, 1, 2, 5, 20, 100, 400]))
            a = s.i(0, 255)
            if k <= 4 and room > m:
                room -= m
                out += [fcb((a + j) & 255) for j in range(m)]
            elif k == 5:
                out += [Line() for _ in range(m)]
            elif k == 6:
                out += [Line(comment=str(a + j)) for j in range(m)]
            elif k == 7:
                room -= 60
                out.append(Line(None, 'fcb', [I((a + j) & 255) for j in range(s.i(2, 60))]))
            else:
                out += [Line(lab('l%d_%d_%d' % (a, len(out), j)), 'equ', [I(j)]) if s.p(3) else Line(None, 'setdp', [I(a)]) for j in range(m)]
        return out

    k = s.draw(3)
    if k == 0:
        lines += run_of(n)
    elif k == 1:
        files['inc.s'] = run_of(n)
        lines += run_of(s.i(1, 30)) + [Line(None, 'include', [S('inc.s')])] + run_of(s.i(1, 30))
    elif k == 2:
        m = s.pick([1, 3, 10, 40])
        lines += [Line(lab('mac'), 'macro'), Line(None, 'fcb', [IP(1), I(2)])] + [Line(None, 'fcb', [I(j)]) for j in range(m)] + [Line(None, 'endm')]
        room -= (m + 2) * (min(n, 20000 // m) // m)
        for j in range(min(n, 20000 // m) // m):
            lines.append(Line(None, 'mac', [I(j & 255)]))
    else:
        lines += [Line(None, 'if', [I(s.draw(1))])] + run_of(n // 2) + [Line(None, 'else')] + run_of(n // 2) + [Line(None, 'endif')]
    lines.append(Line(None, 'fdb', [('pc',)]))
    files[MAIN] = lines
    case = Case(files)
    o, r = check(env, s, case, style=render.Style(6809) if s.p(80) else None, listing=True, symbols=False)
    return info(case, o, o.ok and nontriv(o), ['%d+ lines' % (n // 1000 * 1000), ['file', 'include', 'macro', 'branches'][k]])


PARTS = [Part('anytext', textcases.part(files=40, listing=100), 8000, 100000), Part('long', long, 500, 4000), Part('programs', programs, 19700, 160000), Part('structure', structure, 19700, 160000),
         Part('text', text, 19700, 150000), Part('overlays', overlays, 13100, 80000), Part('around', around, 13100, 80000), Part('rebuild', rebuild, 15300, 120000)]
ASSUME = ['lines of a macro definition and of unselected branches appear once, without bytes',
          'bytes are listed at the program counter, not the PUT address']
