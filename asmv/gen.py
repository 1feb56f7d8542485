"""Program generators.  Every decision is drawn from the case's Src."""
from . import isa as isa_mod
from .model import Line, ALL_PSEUDO

BOUNDS = [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 126, 127, 128, 129, 130, 254, 255, 256, 257, 0x7ff, 0xfff, 0x1000,
          0x7ffe, 0x7fff, 0x8000, 0x8001, 0xff00, 0xff7f, 0xff80, 0xfff0, 0xfffe, 0xffff, 0x10000, 0x10001]

COND_BR = sorted(n for n, d in isa_mod.I6809.items() if d['kind'] in ('rel8', 'rel16'))
REL8 = [n for n in COND_BR if isa_mod.I6809[n]['kind'] == 'rel8']
REL16 = [n for n in COND_BR if isa_mod.I6809[n]['kind'] == 'rel16']


def I(v):
    return ('i', v) if v >= 0 else ('u', '-', ('i', -v))


def S(text):
    return ('s', [text])


def ID(name):
    return ('id', [name])


def IP(n):
    return ('id', [('ip', n)])


def reg(name, attr=''):
    return ('reg', name, attr)


EMPTY = ('empty',)

_tables = {}


def mnemonics(isa, kind=None):
    key = (isa, kind)
    if key not in _tables:
        t = isa_mod.table(isa)
        _tables[key] = sorted(n for n, d in t.items() if kind is None or d['kind'] == kind)
    return _tables[key]


NAME_CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.'


class Gen:
    def __init__(self, s, isa=None, feat=()):
        self.s = s
        self.isa = isa or (6309 if s.p(35) else 6809)
        self.table = isa_mod.table(self.isa)
        self.regs = isa_mod.regs(self.isa)
        self.feat = set(feat)
        self.used = set()
        self.lines = []
        self.files = {}
        self.syms = []          # dict(name, kind, done)
        self.macros = []
        self.params = None      # inside a macro body: list of parameter kinds
        self.nodef = 0          # inside code that may not be assembled
        self.locals_ahead = []
        self.nlocal = 0
        self.seq = 0
        self.defsets = set()

    # -- names ---------------------------------------------------------------
    def name(self, prefix=None):
        s = self.s
        while True:
            self.seq += 1
            k = s.draw(5)
            if prefix:
                n = '%s%d' % (prefix, self.seq)
            elif k <= 1:
                n = 's%d' % self.seq
            elif k == 2:
                n = 'Sym_%d' % self.seq
            elif k == 3:
                n = '_%d.x' % self.seq
            else:
                n = s.pick('abcdefgtxyzABEFWX_') + ''.join(s.pick(NAME_CHARS) for _ in range(s.i(2, 9)))
            if n.lower() in isa_mod.REGS6809 or n.lower() in isa_mod.REGS6309:
                continue
            if n.lower() in ALL_PSEUDO or n.lower() in isa_mod.ALL6309 or n in self.used:
                continue
            self.used.add(n)
            return n

    # -- numbers -------------------------------------------------------------
    def value(self, lo=-70000, hi=70000):
        s = self.s
        k = s.draw(9)
        if k <= 2:
            v = s.i(0, 9)
        elif k <= 5:
            v = s.pick(BOUNDS)
        elif k <= 7:
            v = s.i(0, 0xffff)
        else:
            v = s.i(0, 0x7fffffff)
        if s.p(25):
            v = -v
        if not lo <= v <= hi:
            v = lo + (v - lo) % (hi - lo + 1)
        return v

    def const(self, lo=-70000, hi=70000):
        return I(self.value(lo, hi))

    # -- symbols -------------------------------------------------------------
    def plan(self, kind, **kw):
        d = dict(name=self.name(), kind=kind, done=False, order=len(self.syms), **kw)
        self.syms.append(d)
        return d

    def ref(self, kinds=('label', 'const', 'expr'), before=None, done=None):
        c = [d for d in self.syms if d['kind'] in kinds and (before is None or d['order'] < before)
             and (done is None or d['done'] == done)]
        if not c:
            return None
        return ID(self.s.pick(c)['name'])

    # -- expressions ---------------------------------------------------------
    def leaf(self, before=None, pc=True, small=False, refs=True):
        s = self.s
        k = s.draw(19)
        if self.params is not None and k >= 12:
            ints = [i + 1 for i, p in enumerate(self.params) if p == 'int']
            if ints:
                return IP(s.pick(ints))
        if refs and 6 <= k <= 13:
            r = self.ref(before=before)
            if r is not None:
                return r
        if k == 14 and pc:
            return ('pc',)
        if k == 15:
            return ('chr', s.i(33, 126))
        if k == 16 and not small:
            return S(''.join(chr(s.i(32, 126)) for _ in range(s.i(1, 4))))
        if small:
            return I(s.i(0, 40))
        return self.const()

    def expr(self, depth=2, before=None, pc=True, refs=True):
        s = self.s
        if depth <= 0 or s.p(50):
            return self.leaf(before, pc, refs=refs)
        k = s.draw(15)
        sub = lambda: self.expr(depth - 1, before, pc, refs)   # noqa: E731
        if k <= 6:
            return ('o', s.pick(['+', '-', '+', '-', '*']), sub(), sub())
        if k <= 8:
            return ('o', s.pick(['&', '|', '^']), sub(), sub())
        if k == 9:
            return ('o', s.pick(['<<', '>>']), sub(), I(s.i(0, 15)))
        if k == 10:
            return ('o', s.pick(['/', '%']), sub(), I(s.i(1, 300)))
        if k == 11:
            return ('o', s.pick(['<', '<=', '>', '>=', '==', '!=']), sub(), sub())
        if k == 12:
            return ('o', s.pick(['&&', '||']), sub(), sub())
        if k == 13:
            return ('u', s.pick(['-', '+', '~', '!']), sub())
        if k == 14:
            return ('t', sub(), sub(), sub())
        return ('o', s.pick(['+', '-']), sub(), self.const(0, 300))

    def address(self, before=None):
        """Operand for a memory or branch instruction."""
        s = self.s
        k = s.draw(9)
        if k <= 3:
            r = self.ref(('label',), before)
            if r is not None:
                return ('o', s.pick('+-'), r, I(s.i(0, 300))) if s.p(25) else r
        if k == 4:
            r = self.ref(('const', 'expr'), before)
            if r is not None:
                return r
        if k == 5 and 'local' in self.feat:
            r = self.localref()
            if r is not None:
                return r
        if k == 6:
            return ('o', s.pick('+-'), ('pc',), I(s.i(0, 200)))
        if k == 7:
            return self.expr(2, before)
        return I(self.value(0, 0xffff))

    # -- local labels ----------------------------------------------------------
    def localref(self):
        s = self.s
        n = s.i(0, 3)
        return (s.pick(['b', 'fw']), n)

    # -- operands ----------------------------------------------------------------
    def immediate(self, size):
        if self.s.p(30):
            return self.expr(2)
        hi = (1 << (8 * size)) - 1
        return I(self.value(-hi // 2 - 1, hi))

    def offset(self):
        s = self.s
        k = s.draw(7)
        if k == 0:
            return EMPTY
        if k <= 4:
            return I(s.pick([0, 1, -1, 5, 15, 16, -16, -17, 14, 127, 128, -128, -129, 126, 255, 256, 1000, -1000,
                             32767, -32768, 65535, 32768]))
        if k == 5:
            return I(s.i(-140, 140))
        if k == 6:
            return self.expr(1)
        return self.const(-40000, 70000)

    def indexed(self):
        """Argument list of a valid indexed operand."""
        s = self.s
        ind = s.p(30)
        k = s.draw(9)
        six = self.isa == 6309
        r = s.pick(['x', 'y', 'u', 's'])
        if k <= 3:
            off = self.offset()
            if off is not EMPTY and s.p(25):
                off = ('attr', s.pick(['<', '>'] if ind else ['<<', '<', '>']), off)
            a = [off, reg(r)]
        elif k == 4:
            a = [reg(s.pick(['a', 'b', 'd', 'e', 'f', 'w'] if six else ['a', 'b', 'd'])), reg(r)]
        elif k == 5:
            a = [EMPTY, reg(r, s.pick(['+', '++', '-x', '--x']))]
            if ind and a[1][2] in ('+', '-x'):
                a = [EMPTY, reg(r, '++')]
        elif k == 6:
            a = [self.address(), reg('pcr')]
            if s.p(15):
                a[0] = ('attr', '>', a[0])
        elif k == 7:
            a = [I(s.pick([0, 1, -1, 127, 128, -128, -129, 300, -300])), reg('pc')]
        elif k == 8 and six:
            kk = s.draw(3)
            if kk == 0:
                a = [EMPTY, reg('w')]
            elif kk == 1:
                a = [EMPTY, reg('w', s.pick(['++', '--x']))]
            else:
                a = [self.offset(), reg('w')]
        else:
            a = [EMPTY, reg(r)]
        if k == 9 and s.p(60):
            return [('arr', [self.address()])]
        if self.params is not None and s.p(30):
            rs = [i + 1 for i, p in enumerate(self.params) if p == 'xreg']
            if rs:
                a = [self.offset(), IP(s.pick(rs))]
        return [('arr', a)] if ind else a

    def memory(self):
        s = self.s
        k = s.draw(9)
        if k <= 4:
            a = self.address()
            if s.p(15):
                a = ('attr', s.pick(['<', '>']), a)
            return [a]
        if k == 5 and 'local' in self.feat:
            return [self.localref()]
        return self.indexed()

    def near(self):
        """Branch target that is probably within 8 bits."""
        s = self.s
        k = s.draw(9)
        if k <= 4:
            return ('o', '+', ('pc',), I(s.i(0, 120))) if s.draw(1) else ('o', '-', ('pc',), I(s.i(0, 120)))
        if k <= 6 and 'local' in self.feat and self.nlocal:
            return self.localref()
        if k == 7:
            return ('o', '+', ('pc',), I(s.pick([129, 128, 127, -126, -125, 2])))
        d = [x for x in self.syms if x['kind'] == 'label' and x['done']]
        if d:
            return ID(d[-1 - s.draw(min(1, len(d) - 1))]['name'])
        return ('pc',)

    def instr(self, kinds=None):
        s = self.s
        k = kinds or s.w((5, 'mem'), (3, 'immediate'), (2, 'inh'), (2, 'rel8'), (2, 'rel16'), (2, 'lea'),
                         (1, 'stack'), (1, 'pair'), (1, 'imm'), (3, 'six'))
        if isinstance(k, (list, tuple)):
            k = s.pick(k)
        if k == 'six':
            k = s.pick(['tfm', 'bit', 'immem', 'pair', 'mem', 'inh']) if self.isa == 6309 else 'mem'
        if k == 'immediate':
            ms = [m for m in mnemonics(self.isa, 'mem') if 'imm' in self.table[m]]
            m = s.pick(ms)
            return Line(None, m, [('attr', '#', self.immediate(self.table[m]['immsize']))])
        m = s.pick(mnemonics(self.isa, k))
        d = self.table[m]
        if k == 'inh':
            return Line(None, m)
        if k == 'mem':
            return Line(None, m, self.memory())
        if k == 'lea':
            return Line(None, m, self.indexed())
        if k == 'imm':
            return Line(None, m, [('attr', '#', self.immediate(1))])
        if k == 'rel8':
            return Line(None, m, [self.near()])
        if k == 'rel16':
            return Line(None, m, [self.address()])
        if k == 'stack':
            rs = [r for r in isa_mod.STACK_BIT if r != d['own']]
            return Line(None, m, [reg(r) for r in s.sample(rs, s.i(1, 4))])
        if k == 'pair':
            rs = [r for r in sorted(isa_mod.PAIR_CODE) if r in self.regs]
            a = s.pick(rs)
            b = s.pick([r for r in rs if isa_mod.PAIR_SIZE[r] == isa_mod.PAIR_SIZE[a]])
            return Line(None, m, [reg(a), reg(b)])
        if k == 'tfm':
            mode = s.pick(sorted(isa_mod.TFM_MODE))
            sign = {'': '', '+': '+', '-': 'x-'}
            return Line(None, m, [reg(s.pick('dxyus'), sign[mode[0]]), reg(s.pick('dxyus'), sign[mode[1]])])
        if k == 'bit':
            return Line(None, m, [reg(s.pick(['cc', 'a', 'b'])), I(s.i(0, 7)), I(s.i(0, 7)),
                                  s.pick([I(s.i(0, 255)), self.address()])])
        if k == 'immem':
            i = self.immediate(1)
            return Line(None, m, [('attr', '#', i) if s.p(80) else i] + self.memory())
        raise AssertionError(k)

    # -- data ----------------------------------------------------------------------
    def text(self, lo=1, hi=12):
        s = self.s
        n = s.length(lo, hi, 4)
        out = []
        for _ in range(n):
            k = s.draw(9)
            if k <= 6:
                c = s.i(32, 126)
            elif k == 7:
                c = ord(s.pick('/"\\&;\'*{}019nr'))
            elif k == 8:
                c = s.pick([10, 13, 9])
            else:
                c = s.i(128, 255)
            out.append(chr(c))
        return ''.join(out)

    def strnode(self):
        parts = [self.text()]
        if self.params is not None and self.s.p(50):
            ps = [i + 1 for i, p in enumerate(self.params) if p in ('str', 'int', 'name')]
            if ps:
                parts.insert(self.s.draw(1), ('ip', self.s.pick(ps)))
        return ('s', parts)

    def datum(self, strings=True):
        s = self.s
        k = s.draw(9)
        if k <= 2 and strings:
            return self.strnode()
        if k == 3:
            return self.expr(2)
        if k == 4:
            return ('f', s.pick(['1.5', '0.25', '2.', '.75', '100.999', '65535.9']))
        if k == 5:
            r = self.ref(('label', 'const', 'expr', 'str') if strings else ('label', 'const', 'expr'))
            if r is not None:
                return r
        if self.params is not None and k >= 6:
            ps = [i + 1 for i, p in enumerate(self.params) if p in ('int', 'str')]
            if ps:
                return IP(s.pick(ps))
        return self.const()

    def data(self):
        s = self.s
        op = s.w((3, 'fcb'), (3, 'fdb'), (2, 'fcc'), (1, 'fcn'), (1, 'fcs'), (1, 'fcv'), (1, 'fci'), (1, 'fqb'),
                 (1, 'rzb'), (1, 'fill'), (1, 'zmb'), (1, 'bsz'), (2, 'rmb'), (1, 'align'))
        if op in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb'):
            args = [self.datum() for _ in range(s.length(1, 5, 2))]
            if s.p(4):
                args.insert(s.i(0, len(args)), EMPTY)
            return Line(None, op, args)
        n = I(s.w((5, s.i(0, 12)), (1, s.pick([0, 1, 120, 127, 128, 129, 255, 256, 300]))))
        if op in ('rzb', 'zmb', 'bsz'):
            return Line(None, op, [n] + ([self.const(-300, 300)] if s.draw(1) else []))
        if op == 'fill':
            return Line(None, op, [self.const(-300, 300), n])
        if op == 'rmb':
            return Line(None, op, [n])
        return Line(None, op, [I(s.pick([1, 2, 4, 16, 3, 10, 256]))] + ([self.const(-300, 300)] if s.draw(1) else []))

    # -- statements -----------------------------------------------------------------
    def put(self, line):
        self.lines.append(line)

    def define(self, d):
        """Line(s) defining planned symbol d at this point."""
        s = self.s
        d['done'] = True
        k = d['kind']
        lab = ('id', [d['name']])
        if k == 'label':
            j = s.draw(3)
            if j == 0:
                self.put(Line(lab))
            else:
                ln = self.instr() if j > 1 else self.data()
                ln.label = lab
                self.put(ln)
        elif k == 'const':
            self.put(Line(lab, 'equ', [d.get('value') or self.const()]))
        elif k == 'expr':
            self.put(Line(lab, 'equ', [self.expr(2, before=d['order'])]))
        elif k == 'str':
            self.put(Line(lab, 'equ', [S(self.text())]))
        elif k == 'reg':
            self.put(Line(lab, 'equ', [reg(d['reg'])]))
        elif k == 'float':
            self.put(Line(lab, 'equ', [('f', '%d.%d' % (s.i(0, 99), s.i(0, 99999)))]))

    def setsym(self):
        """SET symbol: only referred to after being set."""
        s = self.s
        c = [d for d in self.syms if d['kind'] == 'set']
        if c and s.p(70):
            d = s.pick(c)
            e = ('o', '+', ID(d['name']), I(s.i(1, 9))) if s.p(50) else self.const()
        else:
            d = self.plan('set')
            d['done'] = True
            e = self.const()
        self.put(Line(('id', [d['name']]), 'set', [e]))
        return d

    def locallabel(self, ln=None):
        n = self.s.i(0, 3)
        self.nlocal += 1
        if ln is None:
            ln = Line()
        ln.label = ('n', n)
        self.put(ln)

    def statement(self):
        """One ordinary statement."""
        s = self.s
        f = self.feat
        choices = [(10, 'instr'), (5, 'data')]
        if not self.nodef:
            choices.append((4, 'define'))
        if 'local' in f:
            choices.append((4, 'local'))
        if 'org' in f:
            choices.append((1, 'org'))
        if 'put' in f:
            choices.append((1, 'put'))
        if 'section' in f:
            choices.append((2, 'section'))
        if 'setdp' in f:
            choices.append((1, 'setdp'))
        if 'set' in f and not self.nodef and self.params is None:
            choices.append((1, 'set'))
        if 'cond' in f and self.nodef < 3:
            choices.append((2, 'cond'))
        if 'macro' in f and self.params is None and not self.nodef:
            choices.append((1, 'macrodef'))
        if 'macro' in f and self.macros:
            choices.append((2, 'call'))
        if 'include' in f and self.params is None:
            choices.append((1, 'include'))
        choices.append((1, 'blank'))
        k = s.w(*choices)
        if k == 'instr':
            self.put(self.instr())
        elif k == 'data':
            self.put(self.data())
        elif k == 'define':
            todo = [d for d in self.syms if not d['done'] and d['kind'] != 'set']
            if todo:
                self.define(s.pick(todo))
            else:
                self.put(self.instr())
        elif k == 'local':
            j = s.draw(2)
            self.locallabel(None if j == 0 else self.instr() if j == 1 else self.data())
        elif k == 'org':
            self.org()
        elif k == 'put':
            self.put(Line(None, 'put', [I(s.i(0, 0xe000))]))
        elif k == 'section':
            self.section()
        elif k == 'setdp':
            self.put(Line(None, 'setdp', [self.s.pick([I(0), I(1), I(0x20), I(255), I(256), I(-1), self.expr(1)])]))
        elif k == 'set':
            self.setsym()
        elif k == 'cond':
            self.cond()
        elif k == 'macrodef':
            self.macrodef()
        elif k == 'call':
            self.call()
        elif k == 'include':
            self.include()
        else:
            self.put(Line(comment=s.pick(['', '* comment', '; x', ' ; fcb 1,2', '\t* y'])))

    base = 0

    def org(self):
        s = self.s
        k = s.draw(9)
        if k <= 6:
            self.base = (self.base + s.i(1, 40) * 64) & 0xffff
            e = I(self.base)
        elif k == 7:
            e = ('o', '+', ('pc',), I(s.i(0, 200)))
        elif k == 8:
            e = self.ref(('const',)) or I(0x1000)
        else:
            e = I(s.pick([0, 0x100, 0x7ffe, 0xff00, 0xfff0]))
        ln = Line(None, 'org', [e])
        if s.p(15) and not self.nodef:
            todo = [d for d in self.syms if not d['done'] and d['kind'] == 'label']
            if todo:
                d = s.pick(todo)
                d['done'] = True
                ln.label = ('id', [d['name']])
        self.put(ln)

    secnames = ('alpha', 'Beta', 'x', 'CODE', 'data')

    def section(self):
        s = self.s
        k = s.draw(4)
        if k <= 2:
            self.put(Line(None, 'section', [S(s.pick(self.secnames))]))
        else:
            self.put(Line(None, s.pick(['CODE', 'DATA', 'BSS', 'code', 'data', 'RAM', 'auto'])))
        if s.p(25):
            self.org()

    def cond(self):
        s = self.s
        self.nodef += 1
        n = s.i(0, 2)
        self.put(Line(None, 'if', [self.condition()]))
        self.body(0, 3)
        for _ in range(n):
            self.put(Line(None, 'elsif', [self.condition()]))
            self.body(0, 3)
        if s.draw(1):
            self.put(Line(None, 'else'))
            self.body(0, 3)
        self.put(Line(None, 'endif'))
        self.nodef -= 1

    def condition(self):
        s = self.s
        k = s.draw(5)
        if k == 0:
            return I(0)
        if k == 1:
            return I(1)
        if k == 2:
            r = self.ref(('const',)) or I(s.i(0, 1))
            return ('o', s.pick(['<', '<=', '>', '>=', '==', '!=']), r, self.const())
        if k == 3 and self.params is not None:
            ints = [i + 1 for i, p in enumerate(self.params) if p == 'int']
            if ints:
                return ('o', s.pick(['<', '>', '==', '&']), IP(s.pick(ints)), I(s.i(0, 9)))
        if k == 4:
            return ID('undefined_%d' % s.i(0, 2))
        return self.expr(2)

    def body(self, lo, hi):
        for _ in range(self.s.length(lo, hi)):
            self.statement()

    def macrodef(self):
        s = self.s
        name = self.name('m') if s.draw(1) else self.name()
        params = [s.pick(['int', 'str', 'xreg', 'name', 'int']) for _ in range(s.w((8, s.i(0, 3)), (1, s.i(9, 12))))]
        saved = self.lines, self.nodef
        self.lines = []
        self.params = params
        self.nodef += 1
        names = [i + 1 for i, p in enumerate(params) if p == 'name']
        pasted = []
        for i in names:
            if s.p(70):
                pre, post = s.pick([('l_', ''), ('', '_z'), ('q.', '_z'), ('', '')])
                parts = ([pre] if pre else []) + [('ip', i)] + ([post] if post else [])
                if (pre, post) == ('', ''):
                    parts = ['n', ('ip', i)]
                if any(p == parts for p in pasted):
                    continue
                pasted.append(parts)
                ln = Line() if s.draw(1) else self.instr()
                ln.label = ('id', parts)
                self.put(ln)
        self.body(1, 5)
        for parts in pasted:
            if s.p(60):
                self.put(Line(None, s.pick(['ldx', 'jmp', 'fdb', 'lbra']), [('id', parts)]))
        body = self.lines
        self.lines, self.nodef = saved
        self.params = None
        self.put(Line(('id', [name]), 'macro'))
        for b in body:
            self.put(b)
        self.put(Line(None, 'endm'))
        self.macros.append(dict(name=name, params=params))

    def argument(self, kind):
        s = self.s
        if kind == 'int':
            return self.expr(1) if s.p(60) else self.const()
        if kind == 'str':
            return S(self.text())
        if kind == 'xreg':
            return reg(s.pick('xyus'))
        self.seq += 1
        return S('u%d' % self.seq)

    def call(self):
        s = self.s
        # inside a macro body pasted names would repeat
        c = [m for m in self.macros if self.params is None or 'name' not in m['params']]
        if not c:
            self.put(self.instr())
            return
        m = s.pick(c)
        args = [self.argument(p) for p in m['params']]
        self.put(Line(None, m['name'], args or None))

    def include(self):
        s = self.s
        if len(self.files) >= 3:
            self.put(self.data())
            return
        name = s.pick(['inc', 'sub-', 'F.']) + '%d.s' % len(self.files)
        saved = self.lines, self.nodef
        self.files[name] = None
        self.lines = []
        self.nodef = max(self.nodef, 1 if s.p(30) else 0)
        once = not self.nodef
        self.body(1, 5)
        self.files[name] = self.lines
        self.lines, self.nodef = saved
        self.put(Line(None, s.pick(['include', 'include', 'lib']), [S(name)]))
        if not once and s.p(30):
            self.put(Line(None, 'include', [S(name)]))

    def program(self, n=12, nsyms=6):
        """A whole program."""
        s = self.s
        for _ in range(s.i(0, nsyms)):
            k = s.w((5, 'label'), (2, 'const'), (2, 'expr'), (1, 'str') if 'str' in self.feat else (1, 'label'))
            self.plan(k)
        if s.p(70):
            self.base = s.pick([0x100, 0x1000, 0x4000, 0x8000, 0xc000, 0, 0x200])
            self.put(Line(None, 'org', [I(self.base)]))
        if 'local' in self.feat and s.p(80):
            # every number used by a reference exists on both sides
            for k in range(4):
                self.put(Line(('n', k)))
            self.nlocal = 4
        self.body(3, n)
        todo = [d for d in self.syms if not d['done'] and d['kind'] != 'set']
        for d in s.shuffle(todo):
            self.define(d)
        if 'local' in self.feat:
            for k in range(4):
                self.put(Line(('n', k)))
        self.put(Line(None, 'fcb', [I(s.i(0, 255))]))
        return self.lines
