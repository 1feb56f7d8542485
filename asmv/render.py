"""Program trees to source text, in many equivalent spellings."""

PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '<=': 7, '>': 7, '>=': 7,
        '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}
UNARY = 11


class Style:
    """Plain, canonical spelling; subclasses vary it."""
    tight = False       # no spaces around binary operators

    def __init__(self, isa=6809):
        self.isa = isa

    def num(self, v):
        return str(v) if v < 10 else '$%x' % v

    def char(self, c):
        return "'%c'" % c

    def float(self, text):
        return text

    def ws(self):               # between fields
        return '\t'

    def gap(self):              # around operators, after commas: may be empty
        return ''

    def sp(self):               # around binary operators
        return ' '

    def parens(self):           # redundant parentheses
        return 0

    def case(self, word):       # mnemonics, directives, registers
        return word

    def delim(self, text):
        return '"'

    def strchar(self, c, delim):
        """One literal character of a string."""
        if c == '\n':
            return '\\n'
        if c == '\r':
            return '\\r'
        if c in '\\&' or c == delim:
            return '\\' + c
        return c

    def interp(self, n, in_string):
        return '\\%d' % n if n < 10 else '\\{%d}' % n

    def comment(self, line):
        return ''

    def trailing(self):
        return ''

    def bare(self):
        return ''

    def local(self, n, letter):
        return '%d%s' % (n, letter)

    def label_num(self, n):
        return '%d' % n

    def blank(self):
        return ''


# words of comments: the first doesn't continue an expression
WORDS = ['load', 'The', 'x', 'B', 'nop', 'a.b', '_', '5', '$12', 'if', '.5']
MORE = ['five,', '(a, "b\\', '; " /', "it's", '* 2', '"', '/x', '\\', '&1', '1b', '#', ', "c\\', '\\{3}', '+', '[y', '?', '/', "'",
        ',', '%', '=', '-->', '\xe9', '&{2}', '..', '"say "', '!', '@', '"&', '"\\1', ', /\\"']


class RandStyle(Style):
    """Every choice drawn from a Src."""

    def __init__(self, s, isa=6809, level=1):
        super().__init__(isa)
        self.s = s
        self.level = level

    def num(self, v):
        s = self.s
        k = s.draw(7)
        if k == 0:
            return '%d' % v
        if k == 1:
            return '$%x' % v
        if k == 2:
            return '0x%x' % v
        if k == 3:
            return '$' + ('%X' % v).rjust(s.i(1, 4), '0')
        if k == 4:
            return '@%o' % v
        if k == 5:
            return '0%o' % v if v else '0'
        if k == 6:
            return '%' + bin(v)[2:].rjust(s.i(1, 8), '0')
        return '0b' + bin(v)[2:]

    def char(self, c):
        # closing quote is optional
        return "'%c'" % c if self.s.draw(1) else "'%c" % c

    def ws(self):
        return self.s.pick(['\t', ' ', '  ', '\t\t', ' \t', '        '])

    def gap(self):
        return self.s.pick(['', '', '', ' ', '\t', '  '])

    def sp(self):
        return self.s.pick([' ', ' ', '', '  ', '\t'])

    def parens(self):
        return self.s.w((8, 0), (2, 1), (1, 2))

    def case(self, word):
        k = self.s.draw(3)
        if k == 0:
            return word
        if k == 1:
            return word.upper()
        if k == 2:
            return word.capitalize()
        return ''.join(c.upper() if self.s.draw(1) else c for c in word)

    def delim(self, text):
        return self.s.pick(['"', '/'])

    def strchar(self, c, delim):
        if c == '\n':
            return '\\n'
        if c == '\r':
            return '\\r'
        if c == '&':
            return self.s.pick(['\\&', '&&'])
        if c == '\\' or c == delim:
            return '\\' + c
        if c not in '0123456789{nr\t' and self.s.p(6):
            return '\\' + c
        return c

    def interp(self, n, in_string):
        k = self.s.draw(3)
        if n < 10 and k == 0:
            return '\\%d' % n
        if n < 10 and k == 1 and in_string:
            return '&%d' % n
        return ('\\{%d}' if k & 1 else '&{%d}') % n

    def comment(self, line):
        return self.s.w((4, ''), (1, '; a comment'), (1, ' ;; "quote\' [ # fcb 1'),
                        (1, '\t;'), (1, ';\\1 &{2} /x'))

    def trailing(self):
        return self.s.w((4, ''), (1, ' '), (1, '\t \t'))

    def bare(self):
        """Comment that needs no ";"."""
        s = self.s
        if not s.p(6):
            return ''
        out = [s.pick(WORDS)]
        for _ in range(s.draw(3)):
            out.append(s.pick(WORDS + MORE))
        return s.pick([' ', '\t', '    ']) + ' '.join(out)

    def local(self, n, letter):
        return '%d%s' % (n, letter.lower() if self.s.draw(1) else letter)

    def label_num(self, n):
        s = self.s
        k = s.draw(6)
        if n == 0 and k == 4:
            return '!'
        if k == 5:
            return '0x%x' % n
        if k == 6:
            return '0b' + bin(n)[2:]
        if k == 1:
            return '$%x' % n
        if k == 2:
            return '%' + bin(n)[2:]
        if k == 3:
            return '@%o' % n
        return '%d' % n

    def blank(self):
        return ''


def needs_space(a, b):
    x, y = a[-1], b[0]
    if x in ' \t' or y in ' \t':
        return False
    if x in '+-' and y in '+-':
        return True
    if x == '%' and y in '01':
        return True
    if x in '<>&|=!*' and y in '<>&|=*{':
        return True
    if x == '*' and y in '/"':
        return True
    if (x.isalnum() or x in '_.\'') and (y.isalnum() or y in "_.\\'"):
        return True
    if x == '&' and (y.isdigit() or y == '{'):
        return True
    return False


def expr(st, n, prec=0):
    """Text of an expression that needs no parentheses in a context of
    precedence prec."""
    t = n[0]
    red = st.parens()
    inner_prec = 0 if red else prec
    if t == 'i':
        r = st.num(n[1])
    elif t == 'chr':
        r = st.char(n[1])
    elif t == 'f':
        r = st.float(n[1])
    elif t == 's':
        d = st.delim(n[1])
        r = d + ''.join(''.join(st.strchar(c, d) for c in p) if isinstance(p, str) else st.interp(p[1], True)
                        for p in n[1]) + d
    elif t == 'id':
        r = ''.join(p if isinstance(p, str) else st.interp(p[1], False) for p in n[1])
    elif t == 'pc':
        r = '*'
    elif t == 'b':
        r = st.local(n[1], 'B')
    elif t == 'fw':
        r = st.local(n[1], 'F')
    elif t == 'u':
        e = expr(st, n[2], UNARY)
        g = st.gap()
        if not g and (needs_space(n[1], e) or e[0] in '+-'):
            g = ' '
        if n[1] == '!' and e[0] == '=':
            g = ' '
        r = n[1] + g + e
        if inner_prec > UNARY:
            r = '(' + r + ')'
    elif t == 'o':
        p = PREC[n[1]]
        le = expr(st, n[2], p)
        re = expr(st, n[3], p + 1)
        a, b = st.sp(), st.sp()
        op = n[1]
        # a "*" operand directly followed by "/" would start a string
        if n[2] == ('pc',) and op == '/':
            le = '(*)'
        if le.endswith('*') and op == '/':
            le = '(' + le + ')'
        if not a and (needs_space(le, op) or le[-1] == "'" or le[-1] in '<>&|*'):
            a = ' '
        if op == '/' and re[0] in '/"':
            b = b or ' '
        if not b and (needs_space(op, re) or re[0] in '<>=&|+-*%' or (op == '%')):
            b = ' '
        if op in '<>' and not b:
            b = ' '
        r = le + a + op + b + re
        if inner_prec > p:
            r = '(' + r + ')'
    elif t == 't':
        c = expr(st, n[1], 1)
        a = expr(st, n[2], 0)
        b = expr(st, n[3], 0)
        r = '%s%s?%s%s%s:%s%s' % (c, ' ', ' ', a, ' ', ' ', b)
        if inner_prec > 0:
            r = '(' + r + ')'
    else:
        raise AssertionError(n)
    for _ in range(red):
        r = '(' + st.gap() + r + st.gap() + ')'
    return r


def arg(st, a):
    t = a[0]
    if t == 'reg':
        name, at = st.case(a[1]), a[2]
        if at in ('+', '++'):
            return name + at
        if at == '-x':
            return '-' + name
        if at == '--x':
            return '--' + name
        if at == 'x-':
            return name + '-'
        return name
    if t == 'attr':
        e = expr(st, a[2])
        g = st.gap()
        if not g and (needs_space(a[1], e) or e[0] in '<>='):
            g = ' '
        return a[1] + g + e
    if t == 'arr':
        return '[' + arglist(st, a[1]) + ']'
    if t == 'empty':
        return ''
    if t == 'lt':
        return '<'
    if t == 'gt':
        return '>'
    e = expr(st, a)
    return e


def arglist(st, args):
    out = ''
    for i, a in enumerate(args):
        t = arg(st, a)
        if i:
            out += st.gap() + ',' + st.gap()
        out += t
    return out


def ends(a):
    """Is this the end of the operands, whatever word follows?"""
    t = a[0]
    if t in ('i', 'chr', 'f', 's', 'b', 'fw', 'arr', 'id'):
        return True
    if t == 'reg':
        return a[2] in (None, '', '-x', '--x')
    if t in ('attr', 'u'):
        return ends(a[2])
    if t in ('o', 't'):
        return ends(a[3])
    return False


def label(st, lab):
    if lab is None:
        return ''
    if lab[0] == 'n':
        return st.label_num(lab[1])
    return ''.join(p if isinstance(p, str) else st.interp(p[1], False) for p in lab[1])


def line(st, ln, keep_case=()):
    """Text of one line.  keep_case: opcodes that are macro or section names."""
    if ln.bad:
        return ln.text
    if ln.label is None and ln.op is None:
        return ln.comment or st.blank()
    r = label(st, ln.label)
    if ln.op is not None:
        op = ln.op if ln.op in keep_case else st.case(ln.op)
        r += st.ws() + op
        if ln.args is not None:
            r += st.ws() + arglist(st, ln.args)
    c = ln.comment or st.comment(ln)
    if not c and ln.args and ends(ln.args[-1]):
        c = st.bare()
        if c:
            return r + c
    if c:
        r += ('' if c[0] in ' \t;' else ' ') + c
    else:
        r += st.trailing()
    return r


SECTION_WORDS = {'code', 'data', 'bss', 'ram', 'auto'}


def program(st, lines, macros=()):
    """Render lines, setting .text on each; returns the text."""
    from .model import ALL_PSEUDO
    from .isa import table
    known = ALL_PSEUDO | set(table(st.isa))
    out = []
    for ln in lines:
        keep = ()
        if ln.op is not None and (ln.op.lower() not in known or ln.op.lower() in SECTION_WORDS):
            keep = (ln.op,)
        ln.text = line(st, ln, keep)
        out.append(ln.text)
    return '\n'.join(out) + ('\n' if out else '')
