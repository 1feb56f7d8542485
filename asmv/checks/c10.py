"""C10: conditional assembly."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = 'a program counts when it has at least one conditional with more than one branch; distinct by source'


class CG:
    def __init__(self, s):
        self.s = s
        self.k = 0
        self.ifs = 0
        self.dirty = False      # dead branches with erroneous lines
        self.params = 0

    def marker(self):
        self.k += 1
        return Line(None, 'fdb', [I(self.k)])

    def cond(self):
        s = self.s
        k = s.draw(13)
        if k <= 2:
            return I(0)
        if k <= 4:
            return I(s.pick([1, 2, 5, 0x10000]))
        if k == 5:
            return I(-s.i(1, 9))
        if k == 6:
            return ID(s.pick(['yes', 'no', 'late0', 'late1']))
        if k == 7:
            return ID('undef%d' % s.i(0, 3))
        if k == 8:
            return ('o', s.pick(['<', '>', '==', '!=', '<=', '>=']), ID(s.pick(['yes', 'no', 'five'])), I(s.i(0, 6)))
        if k == 9:
            return ('o', s.pick(['&&', '||']), self.cond(), self.cond())
        if k == 10:
            return ('u', '!', self.cond())
        if k == 11 and self.params:
            return IP(s.i(1, self.params))
        if k == 12:
            return ('o', '+', ID('undef1'), I(s.draw(1)))
        return s.pick([('f', '0.0'), ('f', '2.5'), S('a'), ('o', '-', ID('five'), I(5))])

    def junk(self):
        """Lines that can't be assembled."""
        s = self.s
        return s.pick([lambda: Line(None, 'nosuchop', [I(1)]), lambda: Line(None, 'fdb', [ID('nowhere')]),
                       lambda: Line(lab('yes'), 'equ', [I(9)]), lambda: Line(None, 'rmb', [I(-1)]),
                       lambda: Line(None, 'include', [S('missing.s')]), lambda: Line(None, 'bra', [I(0x7000)]),
                       lambda: Line(None, 'lda', [I(1), I(2), I(3)]), lambda: Line(None, 'fcb', [('o', '%', I(1), I(0))]),
                       lambda: Line(lab('late0'), 'set', [I(1)]),
                       lambda: Line(None, 'org', [I(0x9999)]), lambda: Line(None, 'section', [S('q')]),
                       lambda: Line(None, 'setdp', [I(0x10)]), lambda: Line(None, 'export', [ID('nowhere')]),
                       lambda: Line(None, 'put', [I(0)]), lambda: Line(None, 'endm')])()

    def body(self, depth, n=None):
        s = self.s
        out = []
        for _ in range(s.i(0, 3) if n is None else n):
            k = s.draw(6)
            if k <= 2:
                out.append(self.marker())
            elif k == 3 and depth:
                out += self.tree(depth - 1)
            elif k == 4 and self.dirty:
                out.append(self.junk())
            elif k == 5:
                out.append(Line(('n', s.i(0, 2))))
            else:
                out.append(Line(None, 'nop'))
        return out

    def lab(self):
        """A label on a conditional line has no meaning, and no effect on the line's."""
        s = self.s
        if not s.p(8):
            return None
        self.k += 1
        return s.pick([lab('tag%d' % self.k), lab('yes'), ('n', s.i(0, 2))])

    def tree(self, depth, value=None):
        s = self.s
        self.ifs += 1
        out = []
        dead = self.dirty
        pick = s.draw(3)        # which style of truth
        first = True
        done = False
        for b in range(s.w((3, 1), (3, 2), (2, 3), (1, 5))):
            c = self.cond()
            if pick == 3:
                # known truth, so that dead branches can hold junk
                t = s.draw(1) == 1
                c = I(1) if t else I(0)
            else:
                t = None
            out.append(Line(self.lab(), 'if' if first else 'elsif', [c]))
            first = False
            if t is None:
                self.dirty = dead
                out += self.body(depth)
            else:
                live = t and not done
                self.dirty = not live or dead
                out += self.body(depth)
                done = done or t
            self.dirty = dead
        if s.draw(1):
            out.append(Line(self.lab(), 'else'))
            self.dirty = dead or (pick == 3 and done)
            out += self.body(depth)
            self.dirty = dead
        out.append(Line(self.lab(), 'endif'))
        return out


PRE = [Line(lab('yes'), 'equ', [I(1)]), Line(lab('no'), 'equ', [I(0)]), Line(lab('five'), 'equ', [I(5)])]
POST = [Line(lab('late0'), 'equ', [I(0)]), Line(lab('late1'), 'equ', [I(3)])]


def fresh(ls):
    return [Line(l.label, l.op, l.args) for l in ls]


def trees(s, env):
    g = CG(s)
    lines = [org(0x1000)] + fresh(PRE)
    for _ in range(s.i(1, 3)):
        lines += g.tree(s.i(0, 4))
        lines.append(g.marker())
    lines += fresh(POST)
    case = Case({MAIN: lines})
    o, r = check(env, s, case)
    return info(case, o, g.ifs > 0, ['%d conditionals' % min(g.ifs, 9)])


def expect(s, env):
    """Selected lines worked out directly: same code as the program with only
    the selected lines in it."""
    k = [0]

    def body(depth, live):
        out, sel = [], []
        for _ in range(s.i(0, 3)):
            if depth and s.p(40):
                a, b = tree(depth - 1, live)
                out += a
                sel += b
            elif not live and s.p(40):
                out.append(CG(s).junk())
            else:
                k[0] += 1
                out.append(Line(None, 'fdb', [I(k[0])]))
                if live:
                    sel.append(Line(None, 'fdb', [I(k[0])]))
        return out, sel

    def tree(depth, live):
        out, sel, done = [], [], False
        n = s.i(1, 4)
        for b in range(n):
            t = s.draw(1) == 1
            c = s.pick([I(1), I(-1), ID('five'), ('u', '!', I(0))]) if t else \
                s.pick([I(0), ID('none'), ('u', '!', I(3)), ('o', '>', I(2), I(3))])
            if not live or done:
                # must not even be evaluated
                c = s.pick([c, ('o', '%', I(1), I(0)), ('o', '+', ID('areg'), I(1))])
            out.append(Line(None, 'elsif' if b else 'if', [c]))
            a, x = body(depth, live and t and not done)
            out += a
            sel += x
            done = done or t
        if s.draw(1):
            out.append(Line(None, 'else'))
            a, x = body(depth, live and not done)
            out += a
            sel += x
        out.append(Line(None, 'endif'))
        return out, sel

    pre = [org(0x1000), Line(lab('five'), 'equ', [I(5)]), Line(lab('areg'), 'equ', [reg('x')])]
    out, sel = tree(s.i(0, 5), True)
    a = Case({MAIN: pre + out + [Line(None, 'fdb', [('pc',)])]})
    style = style_for(s, 6809)
    a.render(style)
    b = {MAIN: render.program(render.Style(), fresh(pre) + sel + [Line(None, 'fdb', [('pc',)])])}
    ra = run.asm(env, ['-S', '-o', 'out', MAIN], a.write(), ['out'])
    rb = run.asm(env, ['-S', '-o', 'out', MAIN], b, ['out'])
    if rb.rc:
        raise Violation('plain data rejected: %s' % rb.stderr[:300])
    if ra.rc:
        raise Violation('lines of unselected branches have an effect: %s' % ra.stderr[:300].decode('latin-1'))
    if ra.out['out'] != rb.out['out']:
        raise Violation('selected lines differ\n  got      %s\n  expected %s' % (
            outputs.show(outputs.srec(ra.out['out']).segs), outputs.show(outputs.srec(rb.out['out']).segs)))
    return Info(k[0] > 1, [], a.source(), a.digest(), evals=1)


def unbalanced(s, env):
    """Misplaced ELSIF/ELSE/ENDIF and missing ENDIF, also across files and macros."""
    g = CG(s)
    lines = [org(0x1000)] + fresh(PRE)
    lines += g.tree(s.i(0, 3))
    lines += g.tree(s.i(0, 2))
    k = s.draw(3)
    conds = [i for i, l in enumerate(lines) if l.op in ('if', 'elsif', 'else', 'endif')]
    if k == 0:
        del lines[s.pick(conds)]
    elif k == 1:
        i = s.pick(conds)
        lines.insert(i + 1, Line(None, lines[i].op, lines[i].args))
    elif k == 2:
        lines.insert(s.i(4, len(lines)), Line(None, s.pick(['else', 'endif', 'elsif', 'if']), [I(s.draw(1))]))
        for l in lines:
            if l.op in ('else', 'endif'):
                l.args = None
    else:
        i, j = s.pick(conds), s.pick(conds)
        lines[i], lines[j] = lines[j], lines[i]
    files = {}
    if s.p(20) and len(lines) > 6:
        i = s.i(4, len(lines) - 1)
        j = s.i(i, len(lines) - 1)
        files['part.s'] = lines[i:j + 1]
        lines[i:j + 1] = [Line(None, 'include', [S('part.s')])]
    elif s.p(15):
        i = s.i(4, len(lines) - 1)
        j = s.i(i, len(lines) - 1)
        lines[4:4] = [Line(lab('mm'), 'macro')] + fresh(lines[i:j + 1]) + [Line(None, 'endm')]
        lines.append(Line(None, 'mm'))
    lines += fresh(POST) + [fcb(1)]
    files[MAIN] = lines
    case = Case(files)
    o, r = check(env, s, case)
    return info(case, o, True, [])


def macros(s, env):
    """Conditions on macro arguments; macros and includes defined in branches."""
    g = CG(s)
    g.params = s.i(1, 3)
    lines = [org(0x1000)] + fresh(PRE) + [Line(lab('m'), 'macro')]
    lines += g.tree(s.i(0, 2))
    lines.append(Line(None, 'fdb', [IP(1)]))
    lines.append(Line(None, 'endm'))
    g.params = 0
    for _ in range(s.i(1, 4)):
        lines.append(Line(None, 'm', [s.pick([I(0), I(1), I(2), ID('five'), ID('no')]) for _ in range(3)]))
    # one of two definitions
    c = s.pick([I(0), I(1), ID('yes'), ID('no'), ID('late0'), ID('late1')])
    lines += [Line(None, 'if', [c]), Line(lab('two'), 'macro'), g.marker(), Line(None, 'endm'), Line(None, 'else'),
              Line(lab('two'), 'macro'), g.marker(), Line(None, 'nop'), Line(None, 'endm'), Line(None, 'endif'),
              Line(None, 'two')]
    if s.draw(1):
        lines += [Line(None, 'if', [c])] + g.tree(1) + [Line(None, 'else'), Line(None, 'include', [S('i.s')]),
                                                        Line(None, 'endif')]
    files = {MAIN: lines + fresh(POST) + [fcb(1)], 'i.s': g.tree(1) + [g.marker()]}
    case = Case(files)
    o, r = check(env, s, case)
    return info(case, o, True, [])


def deep(s, env):
    """Very deep nesting."""
    n = s.pick([10, 50, 100, 300, 1000])
    lines = []
    bits = [s.draw(7) > 0 for _ in range(min(n, 30))]
    for i in range(n):
        lines += [Line(None, 'if', [I(1 if bits[i % len(bits)] or i < n // 2 else 0)]), Line(None, 'fdb', [I(i)])]
    for i in range(n):
        if s.p(20):
            lines += [Line(None, 'else'), Line(None, 'fdb', [I(0x8000 + i)])]
        lines += [Line(None, 'endif')]
        if i % 3 == 0:
            lines += [Line(None, 'fcb', [I(i)])]
    lines.append(fcb(1))
    case = Case({MAIN: lines}).render(render.Style())
    o, r = core.diff(case, env, fmt=fmt_for(s))
    return info(case, o, True, ['depth %d' % n])


def bulk_if(s, g):
    """A conditional with every kind of branch, chosen by where it is."""
    a, b = s.i(2, 7), s.i(2, 5)
    elsif, els, nest, macro = s.draw(1), s.draw(1), s.p(30), s.p(15)

    def f(i):
        x = [fcb(i & 255)]
        if nest:
            x = [Line(None, 'if', [I(i % b)])] + x + [Line(None, 'else'), fcb(9), Line(None, 'endif')]
        if macro:
            x += [Line(lab('m%d' % i), 'macro'), fcb(8), Line(None, 'endm')]
        out = [Line(None, 'if', [I(int(i % a == 0))])] + x
        if elsif:
            out += [Line(None, 'elsif', [I(int(i % b == 1))]), Line(None, 'fdb', [I(i)])]
        if els:
            out += [Line(None, 'else'), Line(lab('l%d' % i), 'fdb', [ID('l%d' % i)])]
        return out + [Line(None, 'endif')]
    # labels and macros are numbered by iteration: only one of these per program
    if getattr(g, 'once', None):
        return g.once
    g.once = f
    return f


often = bulk([bulk_if])

PARTS = [Part('text', textcases.part(focus='if'), 8000, 100000), Part('often', often, 500, 4000), Part('trees', trees, 32700, 250000), Part('expect', expect, 28000, 200000),
         Part('unbalanced', unbalanced, 28000, 200000), Part('macros', macros, 21000, 150000),
         Part('arguments', arguments(['if', 'elsif', 'else', 'endif']), 3500, 15000), Part('deep', deep, 700, 3000)]
ASSUME = ['lines that do not parse are rejected wherever they stand; only lines that parse are placed in dead branches']
