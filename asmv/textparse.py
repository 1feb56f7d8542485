"""Source text to program trees: an independent reading of the notation, so that
arbitrary text can be judged by the reference model.

parse(text, isa) gives (lines, bad): Line objects up to END, and the numbers of
the lines that can't be parsed.  Raises Unsure where the notation leaves open
what is meant."""
import re

from . import isa as isa_mod
from .model import Line, Unsure

IDLE, LABEL, OPCODE, OPERAND, AFTER, PASTED, STRING = range(7)

WORD = r'[A-Za-z_][A-Za-z0-9_.]*'
ANY = r'[A-Za-z0-9_.]+'

NUMBERS = [(r'%([01]+)', 2), (r'0b([01]+)', 2), (r'@([0-7]+)', 8), (r'(0[0-7]+)', 8), (r'([0-9]+)', 10),
           (r'\$([0-9A-Fa-f]+)', 16), (r'0x([0-9A-Fa-f]+)', 16)]
CHAR = [(r"'(.)'", None), (r"'(.)", None)]
POSITION = [r'&([0-9])', r'\\([0-9])', r'&\{([0-9]+)\}', r'\\\{([0-9]+)\}']

_SPECIAL = 'label op'


def _c(p):
    return re.compile(p)


NUM = [(_c(p), b) for p, b in NUMBERS]
CHR = [_c(p) for p, _ in CHAR]
POS = [_c(p) for p in POSITION]
W, A = _c(WORD), _c(ANY)
FLT = [_c(r'[0-9]*\.[0-9]+'), _c(r'[0-9]+\.')]
BACK, FWD = _c(r'([0-9]+)[bB]'), _c(r'([0-9]+)[fF]')
TWO = ['<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '++', '--']
ONE = '!#%&(*+-:<>?[^|~'
NOSPECIAL = _c(r'[^"&/\\]+')


class Tok:
    __slots__ = ('t', 'v', 'sp')

    def __init__(self, t, v, sp):
        self.t, self.v, self.sp = t, v, sp

    def __repr__(self):
        return '%s:%r' % (self.t, self.v)


def longest(text, i, pats):
    """(length, index, match) of the longest match; the first of equals."""
    best = (0, None, None)
    for k, p in enumerate(pats):
        m = p.match(text, i)
        if m and m.end() - i > best[0]:
            best = (m.end() - i, k, m)
    return best


ALLNUM = [p for p, _ in NUM] + CHR


def number(k, m):
    if k < len(NUM):
        v = int(m.group(1), NUM[k][1])
        if v > (1 << 63) - 1:
            raise Unsure('number too large')
        return v
    return ord(m.group(1))


def tokens(text, regs):
    """Tokens of a line; words that are register names are 'reg'."""
    out = []
    state = IDLE
    i, n = 0, len(text)
    space = False               # white space before the next token

    def word(w):
        return ('reg', w.lower()) if w.lower() in regs else ('id', w)

    def put(t, v):
        out.append(Tok(t, v, space))

    while i < n:
        c = text[i]
        j = i
        while j < n and text[j] in ' \t':
            j += 1
        if state != STRING:
            if j < n and text[j] == ';' or state in (IDLE, LABEL) and j < n and text[j] == '*':
                break           # comment
            if j == n:
                break
            if j > i:
                if state in (IDLE, LABEL):
                    state = OPCODE
                    put('ws', None)
                elif state == OPCODE:
                    state = OPERAND
                    put('ws', None)
                elif state in (AFTER, PASTED) and A.match(text, j):
                    break       # comment
                space = True
                i = j
                continue
        if state == IDLE:
            ln, k, m = longest(text, i, ALLNUM + [W] + POS)
            if k is None:
                put(*(('int', 0) if c == '!' else ('junk', c)))
                ln = 1
            elif k < len(ALLNUM):
                put('int', number(k, m))
            elif k == len(ALLNUM):
                put(*word(m.group()))
            else:
                put('ip', int(m.group(1)))
                state = LABEL
        elif state == LABEL:
            ln, k, m = longest(text, i, [A] + POS)
            if k is None:
                put('junk', c)
                ln = 1
            elif k == 0:
                put('id', m.group())
            else:
                put('ip', int(m.group(1)))
        elif state == OPCODE:
            ln, k, m = longest(text, i, [W] + POS)
            if k is None:
                put('junk', c)
                ln = 1
                state = IDLE
            elif k == 0:
                put(*word(m.group()))
            else:
                put('ip', int(m.group(1)))
        elif state == STRING:
            ln = 1
            if c in '/"':
                if c == delim:
                    put('delim', c)
                    state = AFTER
                else:
                    put('text', c)
            elif c == '&' or c == '\\':
                k, _, m = longest(text, i, POS)
                if m:
                    put('ip', int(m.group(1)))
                    ln = k
                elif c == '&':
                    put('text', '&')
                    ln = 2 if text[i:i + 2] == '&&' else 1
                elif i + 1 < n:
                    d = text[i + 1]
                    put('text', {'n': '\n', 'r': '\r'}.get(d, d))
                    ln = 2
                else:
                    put('text', c)
            else:
                m = NOSPECIAL.match(text, i)
                put('text', m.group())
                ln = m.end() - i
        else:
            if state == OPERAND and c in '/"':
                delim = c
                put('delim', c)
                state = STRING
                space = False
                i += 1
                continue
            if state != OPERAND and c == '/':
                put('/', c)
                state = OPERAND
                space = False
                i += 1
                continue
            # (POS[0], "&1", is an operator and a number here)
            head = [A] if state == PASTED else [W]
            ln, k, m = longest(text, i, head + [POS[2], POS[1], POS[3], BACK, FWD] + ALLNUM + FLT)
            if k is None:
                if text[i:i + 2] in TWO:
                    put(text[i:i + 2], None)
                    state = AFTER if text[i:i + 2] == '++' else OPERAND
                    ln = 2
                else:
                    ln = 1
                    if c in ONE or c == ',':
                        put(c, None)
                        state = OPERAND
                    elif c in ')]':
                        put(c, None)
                        state = AFTER
                    else:
                        put('junk', c)
            elif k == 0:
                if state == PASTED:
                    put('id', m.group())
                else:
                    put(*word(m.group()))
                    state = AFTER
            elif k <= 3:
                put('ip', int(m.group(1)))
                state = PASTED
            elif k <= 5:
                put('b' if k == 4 else 'fw', int(m.group(1)))
                state = AFTER
            elif k < 6 + len(ALLNUM):
                put('int', number(k - 6, m))
                state = AFTER
            else:
                put('float', m.group())
                state = AFTER
        space = False
        i += ln
    return out


class Broken(Exception):
    pass


BINARY = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'],
          ['*', '/', '%']]
LEVEL = {op: i for i, ops in enumerate(BINARY) for op in ops}
STARTS = {'(', '-', '+', '~', '!', 'int', 'float', 'b', 'fw', '*', 'delim', 'id', 'ip'}


class Parser:
    def __init__(self, toks):
        self.toks = toks
        self.i = 0

    def peek(self):
        return self.toks[self.i].t if self.i < len(self.toks) else None

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def want(self, t):
        if self.peek() != t:
            raise Broken()
        return self.next()

    def args(self):
        out = [self.arg()]
        while self.peek() == ',':
            self.next()
            out.append(self.arg())
        return out

    def arg(self):
        t = self.peek()
        if t == '[':
            self.next()
            a = self.args()
            self.want(']')
            return ('arr', a)
        if t in ('#', '<<'):
            self.next()
            return ('attr', t, self.expr())
        if t in ('<', '>'):
            self.next()
            if self.peek() in STARTS:
                return ('attr', t, self.expr())
            return ('lt',) if t == '<' else ('gt',)
        if t in ('-', '--'):
            nxt = self.toks[self.i + 1].t if self.i + 1 < len(self.toks) else None
            if nxt == 'reg':
                self.next()
                return ('reg', self.next().v, '-x' if t == '-' else '--x')
        if t == 'reg':
            r = self.next().v
            if self.peek() in ('+', '++'):
                return ('reg', r, self.next().t)
            if self.peek() == '-':
                self.next()
                return ('reg', r, 'x-')
            return ('reg', r, '')
        if t in STARTS:
            return self.expr()
        if t == '--':
            raise Broken()
        return ('empty',)

    def expr(self):
        c = self.binary(0)
        if self.peek() != '?':
            return c
        self.next()
        a = self.expr()
        self.want(':')
        return ('t', c, a, self.expr())

    def binary(self, level):
        if level == len(BINARY):
            return self.unary()
        e = self.binary(level + 1)
        while self.peek() in BINARY[level]:
            op = self.next().t
            e = ('o', op, e, self.binary(level + 1))
        return e

    def unary(self):
        t = self.peek()
        if t in ('-', '+', '~', '!'):
            self.next()
            return ('u', t, self.unary())
        if t == '(':
            self.next()
            e = self.expr()
            self.want(')')
            return e
        if t == '*':
            self.next()
            return ('pc',)
        if t == 'int':
            return ('i', self.next().v)
        if t == 'float':
            return ('f', self.next().v)
        if t in ('b', 'fw'):
            return (t, self.next().v)
        if t in ('id', 'ip'):
            return ('id', self.parts())
        if t == 'delim':
            self.next()
            parts = []
            while self.peek() in ('text', 'ip'):
                k = self.next()
                parts.append(('ip', k.v) if k.t == 'ip' else k.v)
            self.want('delim')
            if not parts:
                raise Broken()
            return ('s', parts)
        raise Broken()

    def parts(self):
        parts = []
        while self.peek() in ('id', 'ip'):
            k = self.next()
            if k.sp and parts:
                raise Unsure('symbol pasted across white space')
            parts.append(('ip', k.v) if k.t == 'ip' else k.v)
        return parts


UNUSED = {'else', 'endif', 'endm', 'nam', 'name', 'opt', 'page', 'spc', 'sttl', 'ttl'}


def parse_line(text, regs, table):
    """Line, and whether it is well formed."""
    p = Parser(tokens(text, regs))
    label = None
    if p.peek() == 'int':
        label = ('n', p.next().v)
    elif p.peek() in ('id', 'ip'):
        label = ('id', p.parts())
    if p.peek() is None:
        return Line(label), True
    if p.peek() != 'ws':
        return None, False
    p.next()
    if p.peek() not in ('id', 'ip'):
        return None, False
    parts = p.parts()
    if p.peek() is None:
        args, good = None, True
    elif p.peek() != 'ws':
        args, good = None, False
    else:
        p.next()
        try:
            args, good = p.args(), True
            if p.peek() is not None:
                good = p.toks[p.i].sp and args[-1] != ('empty',)
                if args == [('empty',)]:
                    args = None
        except Broken:
            args, good = None, False
    if any(not isinstance(x, str) for x in parts):
        raise Unsure('pasted opcode')
    op = ''.join(parts)
    if not good:
        d = table.get(op.lower())
        good = d is not None and d['kind'] == 'inh' or op.lower() in UNUSED
    return Line(label, op, args), good


def parse(text, isa=6809):
    regs = isa_mod.regs(isa)
    table = isa_mod.table(isa)
    if '\0' in text:
        raise Unsure('NUL')
    if not text:
        raise Unsure('empty file')
    if text.endswith('\r'):
        raise Unsure('half a line end')
    rows = text.split('\n')
    if rows[-1] == '':
        rows.pop()
    out, bad = [], set()
    for n, row in enumerate(rows, 1):
        if row.endswith('\r'):
            row = row[:-1]
        if '\r' in row:
            raise Unsure('carriage return inside a line')
        ln, good = parse_line(row, regs, table)
        if not good:
            bad.add(n)
        if ln is None:
            ln = Line()
        ln.text = row
        out.append(ln)
        if ln.op and ln.op.lower() == 'end':
            break
    return out, bad
