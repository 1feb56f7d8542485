"""Cases made of arbitrary text, read by textparse for the model."""
import os
import re

from . import core, isa as isa_mod, run
from .checks import c17
from .checks.common import info
from .core import Case, MAIN
from .engine import Discard, Info, Violation
from .gen import Gen
from .model import Unsure
from .textparse import parse

NAME = re.compile(r'[A-Za-z0-9_.]+')
# names with line ends in them
SPLIT = re.compile(r'(include|includebin|lib|section)\s[^\n]*\\[nr]', re.I)

GLUE = ['', ' ', '\t', ',', '+', '-', '*', '/', '"', "'", '(', ')', '[', ']', '#', '<', '>', '!', '~', '%', '&', '|', '^', '?', ':', ';', '=',
        '.', '$', '@', '\\1', '&1', '\\{2}', '++', '--', '<<', '>>', '&&', '||', '==', '!=', '<=', '>=', '0', '1', '12', '$a', '%1', '0b1',
        '@7', '0x1', '1b', '1f', '1.5', 'x', 'a', 'b', ',x', ',pc', ',pcr', 'nop', 'fcb', 'end', 'l1', '*', '\xe9', '{', '}', '_', '0f']


def edit(s, text):
    """One small change of the text."""
    lines = text.split('\n')
    i = s.draw(max(0, len(lines) - 2))
    ln = lines[i]
    a = s.draw(len(ln))
    k = s.draw(9)
    if k <= 2:
        lines[i] = ln[:a] + s.pick(GLUE) + ln[a:]
    elif k <= 4:
        lines[i] = ln[:a] + ln[a + s.i(1, 3):]
    elif k == 5:
        b = s.draw(len(ln))
        a, b = min(a, b), max(a, b)
        lines[i] = ln[:a] + s.pick(GLUE) + ln[b:]
    elif k == 6:
        lines[i] = ln[:a] + s.pick(GLUE) + ln[a + 1:]
    elif k == 7:
        lines.insert(i, c17.typed_line(s))
    elif k == 8:
        lines[i] = ln + s.pick([' ', '', '\t']) + s.pick(GLUE)
    else:
        return c17.rebytes(s, text)
    return '\n'.join(lines)


# -- lines that mostly make sense ------------------------------------------------

NAMES = ['l1', 'l2', 'l3', 'k1', 'k2', 'l1.x', '_', 'st', 'later']
TEXTS = ['"a"', '/b/', '"ab c"', '"it\'s"', '/"/', '"/"', '"\\""', '/\\//', '"a&&b"', '"\\n\\r"', '/;x/', '"*"', '"x\xe9"', '"a\\\\"']
BIN = ['+', '-', '*', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '/', '%']


KINDS = {'ins': 5, 'data': 4, 'space': 1, 'dir': 1, 'call': 1, 'sym': 1, 'if': 1}

# what the programs are about
FOCUS = {
    'ins': {'ins': 12, 'data': 1, 'space': 0, 'dir': 0},
    'mem': {'ins': 12, 'data': 1, 'space': 0},
    'rel': {'ins': 9, 'data': 1, 'space': 2},
    'page': {'ins': 8, 'data': 0, 'space': 0, 'dir': 4},
    'expr': {'ins': 0, 'data': 8, 'space': 0, 'dir': 0, 'sym': 3},
    'data': {'ins': 0, 'data': 9, 'space': 4},
    'sym': {'ins': 2, 'data': 3, 'sym': 6, 'space': 1},
    'local': {'ins': 6, 'data': 3},
    'if': {'ins': 1, 'data': 3, 'if': 6},
    'call': {'ins': 3, 'data': 3, 'call': 8},
    'place': {'ins': 1, 'data': 3, 'dir': 6, 'space': 3},
    'export': {'ins': 1, 'data': 2, 'dir': 4, 'sym': 4},
}
OPS = {'mem': ('mem', 'lea', 'immem'), 'rel': ('rel8', 'rel16', 'lea'), 'page': ('mem',)}


class Apt:
    """Text with operands that suit the instructions."""

    def __init__(self, s, isa, focus=None, opts=False):
        self.s = s
        self.isa = isa
        self.focus = focus
        self.names = NAMES + ['d1', 'd2'] * opts
        self.kinds = [(w, k) for k, w in dict(KINDS, **FOCUS.get(focus, {})).items() if w]
        self.table = isa_mod.table(isa)
        self.ops = sorted(op for op, d in self.table.items() if focus not in OPS or d['kind'] in OPS[focus])
        self.params = 0
        self.macs = []          # (name, number of arguments)
        self.n = 0
        self.known = []

    def num(self):
        s = self.s
        v = s.pick([0, 1, 2, 7, 8, 15, 16, 17, 31, 127, 128, 129, 255, 256, 0x1000, 0x7fff, 0x8000, 0xffff, s.i(0, 300)])
        if s.p(90):
            return s.pick(['%d', '%d', '$%x', '0x%X', '@%o', '$%04x']) % v
        return s.pick(["'a", "'a'", "'''", "'\"", "'/", '%101', '0b11', '017', '1.5', '.5', '2.'])

    def atom(self):
        s = self.s
        k = s.draw(9)
        if self.focus == 'local' and s.p(50):
            return s.pick(['%db', '%df', '%dB', '%dF']) % s.i(0, 3)
        if self.focus == 'sym' and s.p(50):
            return s.pick(NAMES + self.known if s.p(95) else ['e2', 't0', 'z3'])
        if self.params and s.p(40):
            return s.pick(['\\%d', '\\{%d}', '&{%d}']) % s.i(1, self.params)
        if k <= 4:
            return self.num()
        if k <= 6:
            return s.pick(self.names)
        return s.pick(['*', s.pick(self.names), s.pick(['1b', '1f', '2B', '2f']), self.num()])

    def expr(self, depth=None):
        s = self.s
        if depth is None:
            depth = 5 if self.focus == 'expr' else 2
        k = s.draw(11) if depth else 0
        if k <= 6:
            return self.atom()
        g = lambda: s.pick(['', '', ' ', '\t'])      # noqa: E731
        if k <= 8:
            return self.expr(depth - 1) + g() + s.pick(BIN) + g() + self.expr(depth - 1)
        if k == 9:
            return s.pick(['-', '+', '~', '!', '- ', '!!', '-~']) + self.expr(depth - 1)
        if k == 10:
            return '(' + g() + self.expr(depth - 1) + g() + ')'
        return self.expr(depth - 1) + g() + '?' + g() + self.expr(depth - 1) + g() + ':' + g() + self.expr(depth - 1)

    def reg(self, few=None):
        s = self.s
        r = s.pick(few or sorted(isa_mod.regs(self.isa)))
        return r.upper() if s.p(30) else r

    def mem(self):
        s = self.s
        r = self.reg(['x', 'y', 'u', 's'] + (['w'] if self.isa == 6309 and s.p(20) else []))
        t = s.pick(['%v', '%v', '<%v', '>%v', '[%v]', '%v,%r', '%v,%r', '[%v,%r]', ',%r', '[,%r]', ',%r+', ',%r++', ',-%r', ',--%r', '[,%r++]',
                    '[,--%r]', 'a,%r', 'B,%r', '[d,%r]', '<%v,%r', '>%v,%r', '<<%v,%r', '%v,pcr', '[%v,PCR]', '%v,pc', '<%v,pcr', '0,%r',
                    '-%v,%r', 'e,%r', 'w,%r', '[f,%r]', ' %v , %r', '%v ,%r', '[ %v , %r ]', '< %v', '%v,%r remark', ',%r remark'])
        return t.replace('%v', self.expr(1) if self.s.p(80) else self.expr()).replace('%r', r)

    def operand(self, d):
        s = self.s
        k = d['kind']
        if k == 'inh':
            return ''
        if k == 'imm' or 'imm' in d and s.p(35):
            return s.pick(['#', '#', '# ']) + self.expr()
        if k in ('mem', 'lea'):
            return self.mem()
        if k == 'immem':
            return s.pick(['#%s,%s', '%s,%s', '# %s , %s']) % (self.expr(1), self.mem())
        if k in ('rel8', 'rel16'):
            return s.pick([s.pick(self.names), '*+%d' % s.i(0, 9), '*', '1b', '1f', self.expr(1), '*-%s' % self.num(), '>'])
        if k == 'stack':
            return ','.join(self.reg(['a', 'b', 'cc', 'dp', 'x', 'y', 'u', 's', 'pc', 'd']) for _ in range(s.i(1, 5)))
        if k == 'pair':
            return self.reg() + s.pick([',', ' , ']) + self.reg()
        if k == 'tfm':
            return s.pick(['%s+,%s+', '%s-,%s-', '%s+,%s', '%s,%s+', '%s,%s']) % (self.reg('xyusd'), self.reg('xyusd'))
        if k == 'bit':
            return '%s,%s,%s,%s' % (self.reg(['a', 'b', 'cc']), s.i(0, 8), s.i(0, 7), self.expr(1))
        raise AssertionError(k)

    def label(self):
        s = self.s
        self.n += 1
        k = s.draw(9)
        if self.focus == 'local':
            k = s.pick([1, 6, 6, 6])
        if k <= 4:
            return ''
        if k == 5 and self.params:
            return s.pick(['p\\1', 'p&1', 'p\\{1}z', 'p&{1}_%d' % self.n])
        if k <= 6:
            return s.pick(['1', '2', '0', '!', '$1', '3'])
        if self.focus == 'call' and self.params and s.p(80):
            return ''           # would be defined by each call
        self.known.append('z%d' % self.n)
        return 'z%d' % self.n

    def line(self, depth=2):
        s = self.s
        k = s.w(*self.kinds)
        if k == 'if' and not depth:
            k = 'sym'
        ws = s.pick(['\t', ' ', '  '])
        if k == 'ins' or k == 'call' and not self.macs:
            op = s.pick(self.ops)
            args = self.operand(self.table[op])
        elif k == 'data':
            op = s.pick(['fcb', 'fcb', 'fdb', 'fdb', 'fqb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'])
            args = s.pick([',', ',', ' , ']).join(
                (s.pick(TEXTS) if not self.params or s.draw(1) else s.pick(['"\\1"', '"a\\{1}b"', '/&1/', '"&{1}x"']))
                if op not in ('fdb', 'fqb') and s.p(40) or s.p(5) else self.expr() for _ in range(s.i(1, 4)))
        elif k == 'space':
            op = s.pick(['rmb', 'rzb', 'align', 'fill', 'zmb', 'bsz', 'fzb'])
            args = str(s.i(0, 40)) if s.p(70) else self.num()
            if op == 'fill':
                args = self.expr(1) + ',' + args
            elif op != 'rmb' and s.p(40):
                args += ',' + self.expr(1)
        elif k == 'dir':
            op = s.pick({'page': ['setdp'], 'export': ['export'] * 3 + ['code']}.get(
                self.focus, ['setdp', 'org', 'put', 'code', 'data', 'section', 'export', 'opt', 'nam', 'page', 'bss', 'ram', 'auto']))
            args = {'setdp': self.expr(1), 'org': self.expr(1), 'put': self.expr(1), 'section': s.pick(TEXTS),
                    'export': s.pick([',', ' , ']).join(s.pick(NAMES + ['m0', 'm1', 'e1', 'z1', 't0']) for _ in range(s.w((3, 1), (1, 2)))),
                    'opt': 'anything (', 'nam': '1'}.get(op, '')
        elif k == 'call':
            op, n = s.pick(self.macs)
            args = ','.join(s.w((6, self.expr(1)), (2, s.pick([x for x in TEXTS if 'n' not in x])), (2, self.reg()), (1, s.pick(['x+', '-x', '#1', '<2', '[1]', ''])))
                            for _ in range(n if s.p(85) else s.i(0, 4)))
        elif k == 'sym':
            op = s.pick(['equ', 'set'])
            self.n += 1
            n = 'e%d' % self.n if op == 'equ' else 't%d' % s.draw(2)
            t = '%s%s%s%s%s' % (n, ws, op, ws, self.expr())
            if op == 'equ':
                self.known.append(n)
            return [t]
        else:
            inner = [x for _ in range(s.i(0, 2)) for x in self.line(depth - 1)]
            els = [ws + 'else'] + [x for _ in range(s.i(0, 2)) for x in self.line(depth - 1)] if s.draw(1) else []
            while s.p(30):
                els = [ws + s.pick(['elsif', 'ELSIF']) + ws + self.expr(1)] + [x for _ in range(s.i(0, 2)) for x in self.line(depth - 1)] + els
            return [self.label() + ws + s.pick(['if', 'if', 'IF']) + ws + self.expr(1)] + inner + els + [ws + 'endif']
        if s.p(20) and k != 'call':
            op = op.upper()
        r = self.label() + ws + op + (s.pick(['\t', ' ']) + args if args else '')
        return [r + s.w((6, ''), (1, ' ; c'), (1, ' remark'), (1, '\t'), (1, ';x'))]

    def program(self):
        s = self.s
        out = ['\torg\t$%x' % s.pick([0x100, 0, 0x1000, 0x7ff0])] if s.p(80) else []
        if s.p(20):
            out.append('\tsetdp\t%d' % s.pick([0, 1, 0x10]))
        out += ['k1\tequ\t%s' % self.num(), 'k2\tset\t5', 'l1', '1\tnop', '2'] + ['3', '0'] * (self.focus == 'local')
        for i in range(s.i(1, 4) if self.focus == 'call' else s.w((4, 0), (3, 1), (2, 2))):
            n = s.i(0, 3)
            self.params = n
            body = [x for _ in range(s.i(1, 4)) for x in self.line(1)]
            self.params = 0
            if s.p(10):
                body[s.draw(len(body)):0] = ['i%d\tmacro' % i, s.pick(['\tfcb\t\\1', '\tnop', 'i\\1']), '\tendm']
                self.macs.append(('i%d' % i, 1))
            out += ['m%d\tmacro' % i] + body + ['\tendm']
            self.macs.append(('m%d' % i, n))
        for n in ['l2', 'l3', 'l1.x', None, None]:
            for _ in range(s.w((3, 0), (3, 1), (1, 3))):
                out += self.line()
            if n:
                out.append(n)
        out += ['_\tequ\tl2-l1', 'st', '1', 'later\tfcb\t0', '2', '0'] + ['3'] * (self.focus == 'local')
        return out


def split(s, texts):
    """Lines moved to included files, or to a second file of the command line."""
    main = [MAIN]
    for i in range(s.w((3, 1), (2, 2), (1, 3))):
        n = s.pick([MAIN] * 4 + sorted(texts))
        lines = texts[n].split('\n')
        a = s.draw(len(lines) - 1)
        b = min(len(lines), a + s.pick([1, 1, 2, 3, 5, 10]))
        if s.p(25) and n == MAIN and len(main) == 1:
            texts['second.s'] = '\n'.join(lines[a:]) or '\n'
            texts[MAIN] = '\n'.join(lines[:a] + [''] * s.draw(1)) or '\n'
            main.append('second.s')
            continue
        name = 'part%d.s' % i
        texts[name] = '\n'.join(lines[a:b] + [''] * s.draw(1)) or '\n'
        lines[a:b] = ['\t%s\t%s' % (s.pick(['include', 'INCLUDE', 'lib']), s.pick(['"%s"', '/%s/', '"%s" remark']) % name)]
        texts[n] = '\n'.join(lines)
    return main


def options(s, case):
    """Options that bear on the program."""
    if s.p(50):
        case.setdp = s.pick([0, 1, 0x10, 0xff])
    for n in ('d1', 'd2', 'd3', s.pick(['l2', 'k1', 'st', 'e1', 't0'])):
        if s.p(90 if n < 'e' else 8):
            case.defines.append((n, s.pick([0, 1, 5, -1, 0x1234, 0xffff, s.i(-300, 70000)])))
    if s.p(40):
        case.max_passes = s.pick([2, 3, 4, 20])
    if s.p(40):
        case.cli_exec = s.pick([0, 0x1234, 0xffff])


def make(s, focus=None, files=False, opts=False):
    """(case, bad): a case, and {file: lines that can't be parsed}."""
    k = s.draw(9) if focus is None and not (files or opts) or focus is None and s.p(20) else 9
    main = [MAIN]
    isa = None
    bins = {}
    if k >= 6:
        isa = s.pick([6809, 6309])
        texts = {MAIN: '\n'.join(Apt(s, isa, focus, opts).program()) + '\n', 'a.s': ' fcb 1\n', 'b.s': ' fcb 2\n'}
        for _ in range(s.w((9, 0), (2, 1), (1, 2)) if focus or files or opts else s.w((5, 0), (2, 1), (1, 2))):
            texts[MAIN] = edit(s, texts[MAIN])
    elif k <= 3:
        g = Gen(s, feat=s.pick([(), ('macro', 'local', 'str'), c17.ALL]))
        lines = g.program(s.length(4, 12, 6), s.i(0, 4))
        c = Case({MAIN: lines, **g.files}, isa=g.isa)
        c.render(c17.style_for(s, g.isa))
        isa = g.isa
        texts = dict(c.texts)
        for _ in range(s.w((2, 1), (2, 2), (1, 4), (1, 0))):
            texts[MAIN] = edit(s, texts[MAIN])
    else:
        out = []
        for _ in range(s.length(1, 10, 3)):
            if s.p(25):
                out.append(s.pick(c17.FRAME))
            out.append(c17.soup_line(s) if s.p(50) else c17.typed_line(s))
        if s.p(70):
            out[0:0] = [t for t in ('l1 nop', 'l2 equ $1234', 'k1 set 5', 'start', 'mac macro', ' fcb \\1', ' endm') if t]
        texts = {MAIN: '\n'.join(out) + '\n', 'a.s': ' fcb 1\n', 'b.s': ' fcb 2\n'}
        bins = {}
    if files:
        main = split(s, texts)
    if any(SPLIT.search(x) for x in texts.values()):
        raise Discard('message over several lines')
    isa = isa or s.pick([6809, 6309])
    try:
        files, bad = {}, {}
        for n, t in texts.items():
            files[n], b = parse(t, isa)
            if b:
                bad[n] = b
    except Unsure as u:
        raise Discard(str(u))
    case = Case(files, main, isa=isa, binfiles=bins)
    case.malformed = {n: b for n, b in bad.items() if n not in main}
    bad = {n: b for n, b in bad.items() if n in main}
    if opts:
        options(s, case)
    case.texts = texts
    case.bin.update({n: t.encode('latin-1') for n, t in texts.items()})
    return case, bad


def fresh(env):
    """Nothing but what the case writes is there to be read."""
    for n in os.listdir(env.dir):
        p = os.path.join(env.dir, n)
        if not os.path.isdir(p):
            os.unlink(p)


def judge(s, env, focus=None, files=0, opts=False, listing=30, symbols=30, exports=0):
    """Arbitrary text, read for the model by an independent parser, means to the
    assembler what it means there."""
    case, bad = make(s, focus, s.p(files), opts)
    fresh(env)
    if bad:
        r = run.asm(env, case.options() + ['-o', 'the output'] + case.main, case.write(), ['the output'])
        if r.rc == 0:
            raise Violation('lines %s cannot be parsed, but the program was accepted' % sorted(bad.items()))
        return Info(False, ['malformed lines'], case.source(), case.digest())
    o = case.model()
    if o.exec is not None and o.exec_addr is None:
        raise Discard('EXEC address')
    fmt = s.pick('CSHCDB')
    if o.segments and o.segments[-1][0] - o.segments[0][0] > 0x10000:
        fmt = s.pick('CSH')         # no gigantic gap to fill
    plain = all(NAME.fullmatch(n) for n in o.symbols)
    o, r = core.diff(case, env, fmt=fmt, listing=s.p(listing), o=o, symbols=s.p(symbols) and plain, exports=s.p(exports) and plain)
    return info(case, o, o.ok)


def part(**kw):
    def text(s, env):
        return judge(s, env, **kw)
    text.__doc__ = judge.__doc__
    return text
