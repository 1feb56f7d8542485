"""Reference model: an independent multi-pass 6809/6309 assembler.

It interprets program *trees* (never text), so it shares no parsing with the
assembler under test.  Where the documentation leaves a result open or the
arithmetic is undefined (64-bit overflow, shifts by odd counts, ...) it raises
Unsure and the case is discarded.

Expression nodes (tuples)
  ('i', n)  ('chr', code)  ('f', text)  ('s', parts)  ('id', parts)  ('pc',)
  ('b', n) ('fw', n)  ('u', op, e)  ('o', op, l, r)  ('t', c, a, b)
  parts: list of str or ('ip', n)
Argument nodes: any expression, or
  ('reg', name, attr)   attr: '' '+' '++' '-x' '--x' 'x-'
  ('attr', kind, e)     kind: '#' '<<' '<' '>'
  ('arr', [args])  ('empty',)  ('lt',)  ('gt',)

Values: (type, v, attr), type i f s r e a; None is undefined.
"""
import bisect
import math

from . import isa as isa_mod

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1

INEFFICIENT, ILLEGAL, INCONSISTENT, RANGE, SYNTAX, DATA, FATAL = range(1, 8)
MAX_ADDRESS = 0x3fffffff
MAX_COUNT = 0x10000


class Unsure(Exception):
    pass


class Line:
    __slots__ = ('label', 'op', 'args', 'text', 'bad', 'comment')

    def __init__(self, label=None, op=None, args=None, comment=''):
        self.label = label          # None | ('n', int) | ('id', parts)
        self.op = op                # None | str
        self.args = args            # None | list of argument nodes
        self.comment = comment
        self.text = None            # filled in by the renderer
        self.bad = False            # cannot be parsed

    def __repr__(self):
        return 'Line(%r, %r, %r)' % (self.label, self.op, self.args)


def chk(v):
    if not I64MIN <= v <= I64MAX:
        raise Unsure('integer overflow')
    return v


def f2i(x):
    if math.isnan(x) or math.isinf(x) or not -9.2e18 < x < 9.2e18:
        raise Unsure('float to integer out of range')
    return int(x)


def s2i(s):
    v = 0
    for c in s:
        v = (v << 8 | ord(c) & 0xff) & 0xffffffff
    return v


def to_int(v):
    """Integer value of a value, or None if it has none."""
    if v is None:
        return None
    t = v[0]
    if t == 'i':
        return v[1]
    if t == 'f':
        return f2i(v[1])
    if t == 's':
        return s2i(v[1])
    return None


def rel16(v):
    v &= 0xffff
    return v - 0x10000 if v > 0x7fff else v


class Section:
    def __init__(self, name, dp):
        self.name = name
        self.pc = self.put = 0
        self.last_pc = self.last_put = 0
        self.dp = dp
        self.lineno = 0
        self.chunks = []            # (put, pc, bytearray)
        self.locals = {}            # n -> (sorted line list, {line: value})
        self.passno = -1

    def emit(self, data):
        ch = self.chunks
        if ch and ch[-1][0] + len(ch[-1][2]) == self.put and ch[-1][1] + len(ch[-1][2]) == self.pc:
            ch[-1][2].extend(data)
        else:
            ch.append((self.put, self.pc, bytearray(data)))
        self.put += len(data)
        self.pc += len(data)


class Outcome:
    """Result of the last pass."""
    pass


# pseudo-ops, in the order they take priority
LABEL_OPS = {'equ', 'set', 'org', 'section', 'code', 'data', 'bss', 'ram', 'auto'}
SECTION_OPS = {'code', 'data', 'bss', 'ram', 'auto'}
DATA_OPS = {'fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'rzb', 'fzb', 'zmb', 'bsz', 'fill', 'rmb',
            'align', 'includebin'}
OTHER_OPS = {'put', 'setdp', 'include', 'lib', 'end', 'page', 'spc', 'nam', 'name'}
SKIP_OPS = {'opt', 'ttl', 'sttl'}
COND_OPS = {'if', 'elsif', 'else', 'endif'}
ALL_PSEUDO = LABEL_OPS | DATA_OPS | OTHER_OPS | SKIP_OPS | COND_OPS | {'macro', 'endm', 'export'}


class Asm:
    def __init__(self, files, main, isa=6809, setdp=-1, defines=(), max_passes=12, binfiles=None,
                 want_listing=True):
        self.files = files
        self.main = main
        self.isa = isa
        self.table = isa_mod.table(isa)
        self.setdp = setdp
        self.max_passes = max_passes
        self.bin = binfiles or {}
        self.malformed = {}         # included file -> lines that can't be parsed
        self.symbols = {}           # name -> [pass, value, is_set]
        self.sections = {}
        self.macros = {}            # name -> [lines, pass]
        self.exports = []
        self.exec = None
        self.want_listing = want_listing
        self.max_emitted = 1 << 18
        for name, v in defines:
            if name in self.symbols:
                raise Unsure('symbol defined twice on the command line')
            self.symbols[name] = [0, ('i', v, ''), False]
        self.predef = {n for n, _ in defines}

    # -- errors ---------------------------------------------------------------
    def err(self, level, kind):
        if level == INCONSISTENT:
            self.inconsistent = True
        self.errors.append((level, self.ctx[-1][0] if self.ctx else None,
                            self.ctx[-1][1] if self.ctx else 0, kind, self.orig()))

    def orig(self):
        """Innermost (file, line) that is not a macro expansion."""
        for name, line, is_macro in reversed(self.ctx):
            if not is_macro:
                return (name, line)
        return None

    def level(self):
        top = max([e[0] for e in self.errors], default=0)
        if top == RANGE and self.inconsistent:
            return INCONSISTENT
        if self.inconsistent and top < INCONSISTENT:
            return INCONSISTENT
        return top

    # -- whole run --------------------------------------------------------------
    def run(self):
        for p in range(self.max_passes):
            self.passno = p
            self.errors = []
            self.inconsistent = False
            self.listing = []
            self.ctx = []
            self.interp = []
            self.depth = 0
            self.newest = None
            self.emitted = 0
            self.setsec('CODE')
            self.macro_passes_used = False
            for m in self.main:
                self.prog(self.files[m], m, False)
            for s in self.sections.values():
                if (s.last_pc, s.last_put) != (s.pc, s.put):
                    s.last_pc, s.last_put = s.pc, s.put
                    self.inconsistent = True
                # labels whose line was not reached again
                for n, (lines, vals) in s.locals.items():
                    gone = [ln for ln in lines if (n, ln) not in s.set_locals]
                    for ln in gone:
                        lines.remove(ln)
                        del vals[ln]
                        self.inconsistent = True
            if self.level() != INCONSISTENT:
                break
        self.passes = p + 1
        return self.outcome()

    def outcome(self):
        o = Outcome()
        o.level = self.level()
        o.ok = o.level < INCONSISTENT
        o.errors = self.errors
        o.warnings = [e for e in self.errors if e[0] <= ILLEGAL]
        o.passes = self.passes
        o.listing = self.listing
        o.exports = list(dict.fromkeys(self.exports))
        if o.ok:
            for n, (p, v, s) in self.symbols.items():
                if p != self.passno and n not in self.predef:
                    raise Unsure('symbol not redefined in the last pass')
            for n, (ls, p) in self.macros.items():
                if p != self.passno:
                    raise Unsure('macro not redefined in the last pass')
        o.symbols = {n: v[1] for n, v in self.symbols.items()}
        o.set_symbols = {n for n, v in self.symbols.items() if v[2]}
        o.macros = {n: m[0] for n, m in self.macros.items()}
        o.exec = self.exec
        spans = []
        for s in self.sections.values():
            if s.passno == self.passno:
                spans += [(put, bytes(d)) for put, _, d in s.chunks]
        o.section_chunks = {s.name: [(put, pc, bytes(d)) for put, pc, d in s.chunks]
                            for s in self.sections.values() if s.passno == self.passno}
        spans.sort(key=lambda x: x[0])
        o.spans = spans
        o.overlap = any(a[0] + len(a[1]) > b[0] for a, b in zip(spans, spans[1:]))
        # a long span may overlap beyond its neighbour
        end = -1
        for put, d in spans:
            if put < end:
                o.overlap = True
            end = max(end, put + len(d))
        segs = []
        if not o.overlap:
            for put, d in spans:
                if segs and segs[-1][0] + len(segs[-1][1]) == put:
                    segs[-1][1].extend(d)
                else:
                    segs.append((put, bytearray(d)))
        o.segments = [(p, bytes(d)) for p, d in segs]
        return o

    # -- sections -----------------------------------------------------------------
    def setsec(self, name):
        s = self.sections.get(name)
        if s is None:
            s = self.sections[name] = Section(name, self.setdp)
        if s.passno != self.passno:
            s.chunks = []
            if self.newest is not None:
                s.pc, s.put = self.newest.last_pc, self.newest.last_put
            else:
                s.pc = s.put = 0
            self.newest = s
            s.passno = self.passno
            s.dp = self.setdp
            s.lineno = 0
            s.set_locals = set()
        self.sec = s

    def emit(self, data):
        s = self.sec
        if not data:
            return
        if s.pc < 0:
            self.err(RANGE, 'negative address')
        self.emitted += len(data)
        if self.emitted > self.max_emitted:
            raise Unsure('too much data')
        s.emit(data)
        if s.pc > 0x10000:
            self.err(RANGE, 'beyond memory')

    # -- symbols ------------------------------------------------------------------
    def setsym(self, name, v, changeable):
        old = self.symbols.get(name)
        if not changeable and old and old[0] == self.passno:
            self.err(SYNTAX, 'redefined')
            return
        if old and old[2] != changeable:
            raise Unsure('mixes SET and EQU')
        if old and not changeable and not same(old[1], v):
            self.err(INCONSISTENT, 'unstable')
        self.symbols[name] = [self.passno, v, changeable]

    def getsym(self, name):
        s = self.symbols.get(name)
        if s is None or (s[1] is None):
            if self.ignore_undef:
                return ('i', 0, '')
            self.err(INCONSISTENT, 'undefined')
            return None
        if s[2] and s[0] != self.passno:
            raise Unsure('SET symbol referenced before it is set')
        return s[1]

    def setlabel(self, label, v, changeable=False):
        if label is None:
            return
        if label[0] == 'n':
            n, ln = label[1], self.sec.lineno
            if v is None:
                raise Unsure('undefined local label')
            lines, vals = self.sec.locals.setdefault(n, ([], {}))
            if ln in vals:
                if not same(vals[ln], v):
                    self.err(INCONSISTENT, 'unstable local')
            else:
                bisect.insort(lines, ln)
                if self.passno > 0:
                    self.err(INCONSISTENT, 'new local')
            vals[ln] = v
            self.sec.set_locals.add((n, ln))
        else:
            name = self.string(label[1])
            if name is None:
                self.err(SYNTAX, 'bad label') if False else None
                raise Unsure('label cannot be pasted')
            self.setsym(name, v, changeable)

    def local(self, n, fwd):
        lines, vals = self.sec.locals.get(n, ([], {}))
        ln = self.sec.lineno
        if fwd:
            k = bisect.bisect_right(lines, ln)
            if k < len(lines):
                return vals[lines[k]]
        else:
            k = bisect.bisect_right(lines, ln)
            if k > 0:
                return vals[lines[k - 1]]
        self.err(INCONSISTENT, 'local undefined')
        return None

    # -- expressions ----------------------------------------------------------------
    def string(self, parts):
        """Pasted text, or None."""
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v = self.getinterp(p[1])
            if v is None:
                return None
            t, x, attr = v
            if t == 's':
                out.append(x)
            elif t == 'i':
                out.append(str(x))
            elif t == 'r':
                if attr:
                    raise Unsure('pasting register with attribute')
                out.append(x)
            else:
                raise Unsure('pasting odd type')
        return ''.join(out)

    def getinterp(self, n):
        if not self.interp:
            self.err(SYNTAX, 'no positional variables')
            return None
        a = self.interp[-1]
        if a is None or not 1 <= n <= len(a):
            self.err(SYNTAX, 'invalid positional variable')
            return None
        return a[n - 1]

    def ev(self, n):
        t = n[0]
        if t == 'i' or t == 'chr':
            return ('i', n[1], '')
        if t == 'f':
            return ('f', float(n[1]), '')
        if t == 'id':
            parts = n[1]
            if len(parts) == 1 and not isinstance(parts[0], str):
                v = self.getinterp(parts[0][1])
            else:
                name = self.string(parts)
                if name is None:
                    return None
                v = self.getsym(name)
            if v is None:
                return None
            return v if v[0] == 'r' else (v[0], v[1], '')
        if t == 's':
            s = self.string(n[1])
            return None if s is None else ('s', s, '')
        if t == 'pc':
            return ('i', self.sec.pc, '')
        if t == 'o':
            return self.binop(n[1], n[2], n[3])
        if t == 'u':
            return self.unop(n[1], n[2])
        if t == 't':
            c = self.ev(n[1])
            if c is None:
                return None
            ci = to_int(c)
            if ci is None:
                self.err(SYNTAX, 'bad operand')
                return None
            v = self.ev(n[2] if ci else n[3])
            if v is not None and v[2:] and v[2]:
                raise Unsure('chosen operand with a prefix')
            return v
        if t == 'b':
            return self.local(n[1], False)
        if t == 'fw':
            return self.local(n[1], True)
        if t == 'lt':
            return self.local(0, False)
        if t == 'gt':
            return self.local(0, True)
        if t == 'reg':
            return ('r', n[1], n[2])
        if t == 'attr':
            v = self.ev(n[2])
            return None if v is None else (v[0], v[1], n[1])
        if t == 'arr':
            return ('a', [self.ev(a) for a in n[1]], '')
        if t == 'empty':
            return ('e', None, '')
        raise AssertionError(n)

    def unop(self, op, e):
        a = self.ev(e)
        if a is None:
            return None
        if a[0] == 's':
            a = ('i', s2i(a[1]), '')
        t, v = a[0], a[1]
        if op in '-+':
            if t == 'i':
                return ('i', chk(-v) if op == '-' else v, '')
            if t == 'f':
                return ('f', -v if op == '-' else v, '')
        else:
            if t == 'f':
                t, v = 'i', f2i(v)
            if t == 'i':
                return ('i', (0 if v else 1) if op == '!' else ~v, '')
            if op == '!':
                raise Unsure('logical not of a non-number')
        self.err(SYNTAX, 'bad operand')
        return None

    def binop(self, op, le, re):
        a = self.ev(le)
        if a is None:
            return None
        b = self.ev(re)
        if b is None:
            return None
        if a[0] == 's' and b[0] == 's' and op in ('<', '<=', '>', '>=', '==', '!='):
            x, y = a[1].encode('latin-1'), b[1].encode('latin-1')
            return ('i', int(COMPARE[op](x, y)), '')
        if a[0] == 's':
            a = ('i', s2i(a[1]), '')
        if b[0] == 's':
            b = ('i', s2i(b[1]), '')
        if a[0] not in 'if' or b[0] not in 'if':
            self.err(SYNTAX, 'bad operand')
            return None
        x, y = a[1], b[1]
        if op in ARITH or op in COMPARE:
            if a[0] == 'f' or b[0] == 'f' or op == '/':
                x, y = float(x), float(y)
                if op in COMPARE:
                    return ('i', int(COMPARE[op](x, y)), '')
                if op == '/':
                    if y == 0:
                        self.err(RANGE, 'division by zero')
                        return None
                    r = x / y
                else:
                    r = ARITH[op](x, y)
                if math.isinf(r) or math.isnan(r):
                    raise Unsure('float overflow')
                return ('f', r, '')
            if op in COMPARE:
                return ('i', int(COMPARE[op](x, y)), '')
            return ('i', chk(ARITH[op](x, y)), '')
        x = f2i(x) if a[0] == 'f' else x
        y = f2i(y) if b[0] == 'f' else y
        if op == '%':
            if y == 0:
                self.err(RANGE, 'division by zero')
                return None
            r = abs(x) % abs(y)
            return ('i', -r if x < 0 else r, '')
        if op in ('<<', '>>'):
            if not 0 <= y < 64:
                self.err(RANGE, 'shift count')
                return None
            if op == '>>':
                return ('i', x >> y, '')
            return ('i', chk(x << y), '')
        if op == '&':
            r = x & y
        elif op == '|':
            r = x | y
        elif op == '^':
            r = x ^ y
        elif op == '&&':
            r = int(x != 0 and y != 0)
        elif op == '||':
            r = int(x != 0 or y != 0)
        else:
            raise AssertionError(op)
        return ('i', r, '')

    # -- argument helpers ------------------------------------------------------------
    def intarg(self, vals, i, default, required=True):
        if i >= len(vals):
            if required:
                self.err(SYNTAX, 'missing argument')
            return default
        v = vals[i]
        if v is None:
            return default
        if v[0] == 'e':
            return 0
        r = to_int(v)
        if r is None:
            self.err(SYNTAX, 'not an integer')
            return default
        return r

    def count(self, vals, lo, hi=None):
        if len(vals) < lo or (hi is not None and len(vals) > hi):
            self.err(SYNTAX, 'number of arguments')
            return False
        return True

    # -- listing -----------------------------------------------------------------------
    # kinds: 'code' (address and bytes shown), 'addr' (defines a label or sets an
    # address: shows value), '' (shows no bytes)
    def lst(self, line, kind='', addr=None, data=b''):
        self.listing.append((line.text, kind, addr, data))

    # -- programs ------------------------------------------------------------------------
    def prog(self, lines, name, is_macro):
        if self.depth >= 8:
            self.err(FATAL, 'depth')
            self.too_deep = True
            return
        if self.depth == 0:
            self.too_deep = False
        self.depth += 1
        self.ctx.append([name, 0, is_macro])
        cond = []           # each: [state, seen_else]; states: on, wait, done, dead
        defining = 0
        newmacro = None
        ln = 0
        for line in lines:
            if self.too_deep:
                break
            ln += 1
            self.ctx[-1][1] = ln
            self.sec.lineno += 1
            if line.label is None and line.op is None:
                self.lst(line)
                continue
            op = line.op.lower() if line.op else None
            live = not cond or cond[-1][0] == 'on'
            if live and op == 'macro':
                defining += 1
                if defining == 1:
                    newmacro = self.begin_macro(line)
                    self.lst(line)
                    continue
            if live and op == 'endm':
                if defining == 0:
                    self.err(SYNTAX, 'ENDM without MACRO')
                    continue
                defining -= 1
                if defining == 0:
                    newmacro = None
                    if line.args:
                        if len(line.args) > 1 or line.args[0][0] in ('i', 'reg'):
                            self.err(SYNTAX, 'ENDM argument')
                        else:
                            raise Unsure('ENDM with an argument')
                    self.lst(line)
                    continue
            if defining:
                if newmacro is not None:
                    newmacro.append(line)
                self.lst(line)
                continue
            if op in SKIP_OPS:
                self.lst(line)
                continue
            if op in COND_OPS:
                self.lst(line)
                self.conditional(op, line, cond, live)
                continue
            if not live:
                self.lst(line)
                continue
            self.normal(line, op)
            if op == 'end':
                break
        if cond:
            self.err(SYNTAX, 'IF without ENDIF')
        if defining:
            self.err(SYNTAX, 'unfinished macro')
        self.ctx.pop()
        self.depth -= 1

    ignore_undef = False
    too_deep = False

    def condition(self, line):
        self.ignore_undef = True
        vals = [self.ev(a) for a in line.args or []]
        self.ignore_undef = False
        if not self.count(vals, 1, 1):
            return None
        if vals[0] is not None and vals[0][0] == 'f' and 0 < abs(vals[0][1]) < 1:
            raise Unsure('fractional condition')
        return self.intarg(vals, 0, 0)

    def conditional(self, op, line, cond, live):
        if op == 'if':
            if not live:
                cond.append(['dead', False])
                return
            c = self.condition(line)
            if c is None:
                c = 1       # reported: the block is assembled
            cond.append(['on' if c else 'wait', False])
            return
        if not cond:
            self.err(SYNTAX, op + ' without IF')
            return
        top = cond[-1]
        if op == 'endif':
            cond.pop()
            return
        if top[1] and top[0] != 'dead':
            self.err(SYNTAX, op + ' after ELSE')
            return
        if op == 'elsif':
            if top[0] == 'on':
                top[0] = 'done'
            elif top[0] == 'wait':
                c = self.condition(line)
                if c:
                    top[0] = 'on'
        else:
            top[1] = True
            if top[0] == 'on':
                top[0] = 'done'
            elif top[0] == 'wait':
                top[0] = 'on'

    def begin_macro(self, line):
        if line.label is None or line.label[0] != 'id':
            self.err(SYNTAX, 'macro name')
            return None
        name = self.string(line.label[1])
        if name is None:
            raise Unsure('macro name cannot be pasted')
        m = self.macros.get(name)
        if m and m[1] == self.passno:
            self.err(SYNTAX, 'macro redefined')
            return None
        body = []
        self.macros[name] = [body, self.passno]
        return body

    def normal(self, line, op):
        label = line.label
        if label is not None and label[0] == 'id' and len(label[1]) + isinstance(label[1][0], tuple) > 1:
            name = self.string(label[1])
            if name is None:
                if op in LABEL_OPS:
                    raise Unsure('label cannot be pasted')
                label = None
        if op == 'export':
            self.lst(line)
            if not self.count(line.args or [], 1):
                return
            for a in line.args:
                while a[0] == 'attr':
                    a = a[2]
                n = self.string(a[1]) if a[0] in ('id', 's') else None
                if n is not None:
                    self.exports.append(n)
            return
        vals = [self.ev(a) for a in line.args] if line.args is not None else []
        s = self.sec
        if op in LABEL_OPS:
            self.label_op(line, op, vals)
            return
        if label is not None:
            self.setlabel(label, ('i', s.pc, ''))
        if op is None:
            self.lst(line, 'addr', s.pc)
            return
        if op in DATA_OPS:
            pc = s.pc
            n = len(s.chunks)
            size = len(s.chunks[-1][2]) if n else 0
            self.data_op(op, line, vals)
            data = b''
            if len(s.chunks) > n:
                data = bytes(s.chunks[-1][2])
            elif n and len(s.chunks[-1][2]) > size:
                data = bytes(s.chunks[-1][2][size:])
            if data:
                self.lst(line, 'code', pc, data)
            else:
                self.lst(line, 'addr' if label else '', pc)
            return
        if op in OTHER_OPS:
            self.lst(line, 'addr' if label else '', s.pc)
            self.other_op(op, line, vals)
            return
        d = self.table.get(op)
        if d is not None:
            pc = s.pc
            n = len(s.chunks)
            size = len(s.chunks[-1][2]) if n else 0
            self.instr(d, line, [self.trunc(v) for v in vals])
            if len(s.chunks) > n:
                data = bytes(s.chunks[-1][2])
            else:
                data = bytes(s.chunks[-1][2][size:]) if n else b''
            self.lst(line, 'code', pc, data)
            return
        m = self.macros.get(line.op)
        if m:
            if m[1] != self.passno:
                raise Unsure('macro used before its definition in this pass')
            self.lst(line, 'addr' if label else '', s.pc)
            self.interp.append(vals if line.args is not None else None)
            self.prog(m[0], line.op, True)
            self.interp.pop()
            return
        self.err(SYNTAX, 'unknown instruction')

    @staticmethod
    def trunc(v):
        if v is None:
            return v
        if v[0] == 'f':
            return ('i', f2i(v[1]), v[2])
        if v[0] == 'a':
            return ('a', [Asm.trunc(x) for x in v[1]], v[2])
        return v

    def label_op(self, line, op, vals):
        label = line.label
        s = self.sec
        if op in ('equ', 'set'):
            if not self.count(vals, 1, 1):
                return
            v = vals[0]
            if v is not None and v[0] in 'ae':
                raise Unsure('EQU of array or nothing')
            if label is None:
                raise Unsure('EQU without label')
            if v is not None and v[0] != 'r':
                v = (v[0], v[1], '')
            if label[0] == 'n' and v is None:
                raise Unsure('undefined local EQU')
            self.setlabel(label, v, op == 'set')
            x = to_int(v) if v is not None else None
            self.lst(line, 'addr' if x is not None else '', x & 0xffff if x is not None else None)
        elif op == 'org':
            if not self.count(vals, 1, 1):
                return
            v = self.intarg(vals, 0, s.pc)
            if abs(v) > MAX_ADDRESS:
                self.err(RANGE, 'ORG')
                return
            s.pc = v
            if v >= 0:
                s.put = v
            self.setlabel(label, ('i', v, ''))
            self.lst(line, 'addr', v)
        else:
            if op == 'section':
                if not self.count(vals, 1, 1):
                    return
                v = vals[0]
                if v is None:
                    return
                if v[0] != 's':
                    self.err(SYNTAX, 'section name')
                    return
                self.setsec(v[1])
            else:
                self.setsec(line.op)
            self.sec.lineno += 1
            self.setlabel(label, ('i', self.sec.pc, ''))
            self.lst(line, 'addr' if label else '', self.sec.pc)

    def data_op(self, op, line, vals):
        s = self.sec
        if op in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'):
            if not self.count(vals, 1):
                return
            out = bytearray()
            for v in vals:
                if v is None:
                    out.append(0)
                    continue
                t, x = v[0], v[1]
                if t == 'e':
                    out.append(0)
                elif t in 'if':
                    if t == 'f':
                        x = f2i(x)
                    b = x & 0xff
                    out.append(b | 0x80 if op == 'fcs' else b)
                elif t == 's':
                    bs = bytearray(x.encode('latin-1'))
                    if op == 'fcs' and bs:
                        bs[-1] |= 0x80
                    if op in ('fcv', 'fci'):
                        bs = bytearray(vdg(c, op == 'fci') for c in bs)
                    out += bs
                else:
                    self.err(SYNTAX, 'data type')
            if op == 'fcn':
                out.append(0)
            self.bytewise(out)
        elif op in ('fdb', 'fqb'):
            if not self.count(vals, 1):
                return
            w = 2 if op == 'fdb' else 4
            for i in range(len(vals)):
                v = self.intarg(vals, i, 0)
                self.emit((v & ((1 << 8 * w) - 1)).to_bytes(w, 'big'))
        elif op in ('rzb', 'fzb', 'zmb', 'bsz', 'fill'):
            if op == 'fill':
                if not self.count(vals, 2, 2):
                    return
                val, n = self.intarg(vals, 0, 0), self.intarg(vals, 1, 0)
            else:
                if not self.count(vals, 1, 2):
                    return
                n, val = self.intarg(vals, 0, 0), self.intarg(vals, 1, 0, False)
            if n < 0:
                self.err(RANGE, 'negative count')
            if n > MAX_COUNT:
                self.err(RANGE, 'count too large')
                return
            if n > 0:
                self.bytewise(bytes([val & 0xff]) * n)
        elif op == 'rmb':
            if not self.count(vals, 1, 1):
                return
            n = self.intarg(vals, 0, 0)
            if not 0 <= n <= MAX_COUNT:
                self.err(RANGE, 'count')
                return
            s.pc += n
            s.put += n
        elif op == 'align':
            if not self.count(vals, 1, 2):
                return
            a = self.intarg(vals, 0, 0)
            val = self.intarg(vals, 1, 0, False)
            if a < 1:
                self.err(RANGE, 'alignment')
                return
            n = -s.pc % a
            if n > MAX_COUNT:
                self.err(RANGE, 'alignment too large')
                return
            if len(vals) < 2:
                s.pc += n
                s.put += n
            elif n:
                self.bytewise(bytes([val & 0xff]) * n)
        elif op == 'includebin':
            if not self.count(vals, 1, 1):
                return
            v = vals[0]
            if v is None:
                return
            if v[0] != 's':
                self.err(SYNTAX, 'includebin')
                return
            data = self.bin.get(v[1])
            if data is None:
                self.err(FATAL, 'file not found')
                return
            self.bytewise(data)

    def bytewise(self, data):
        """Many bytes: bounds are checked for each."""
        self.emit(data)

    def other_op(self, op, line, vals):
        s = self.sec
        if op == 'put':
            if not self.count(vals, 1, 1):
                return
            v = self.intarg(vals, 0, s.put)
            if v < 0 or v > MAX_ADDRESS:
                self.err(RANGE, 'PUT')
                return
            s.put = v
        elif op == 'setdp':
            if not self.count(vals, 1, 1):
                return
            v = self.intarg(vals, 0, -1)
            s.dp = v & 0xff if v >= 0 else -1
        elif op in ('include', 'lib'):
            if not self.count(vals, 1):
                return
            v = vals[0]
            if v is None or v[0] != 's':
                self.err(SYNTAX, 'include')
                return
            f = self.files.get(v[1])
            if f is None:
                self.err(FATAL, 'file not found')
                return
            for n in sorted(self.malformed.pop(v[1], ())):
                self.errors.append((SYNTAX, v[1], n, 'malformed', (v[1], n)))
            self.prog(f, v[1], False)
            self.sec = s
        elif op == 'end':
            if not self.count(vals, 0, 1):
                return
            if vals:
                if vals[0] is not None and vals[0][0] == 'e':
                    raise Unsure('END with empty argument')
                self.exec = vals[0]
                if vals[0] is None:
                    self.inconsistent = True
        # page, spc, nam, name: nothing

    # -- instructions ---------------------------------------------------------------
    def instr(self, d, line, vals):
        k = d['kind']
        if k == 'inh':
            if vals:
                self.err(SYNTAX, 'unexpected argument')
            self.emit(isa_mod.op(d['code']))
        elif k == 'imm' or (k == 'mem' and 'imm' in d):
            if line.args and line.args[0][0] == 'attr' and line.args[0][1] == '#':
                if len(vals) != 1:
                    self.err(SYNTAX, 'number of arguments')
                    return
                v = to_int(vals[0])
                if v is None and vals[0] is not None:
                    self.err(SYNTAX, 'immediate')
                n = d['immsize']
                self.emit(isa_mod.op(d['imm']) + ((v or 0) & ((1 << 8 * n) - 1)).to_bytes(n, 'big'))
            elif k == 'imm':
                self.err(SYNTAX, 'addressing mode')
            else:
                self.memory(d, vals, b'')
        elif k in ('mem', 'lea'):
            self.memory(d, vals, b'')
        elif k == 'immem':
            if not 2 <= len(vals) <= 3:
                self.err(SYNTAX, 'number of arguments')
                return
            v = to_int(vals[0])
            if v is None and vals[0] is not None:
                self.err(SYNTAX, 'immediate')
                return
            self.memory(d, vals[1:], bytes([(v or 0) & 0xff]))
        elif k in ('rel8', 'rel16'):
            self.relative(d, k, vals)
        elif k == 'stack':
            self.stack(d, vals)
        elif k == 'pair':
            self.pair(d, vals)
        elif k == 'tfm':
            self.tfm(d, vals)
        elif k == 'bit':
            self.bit(d, vals)
        else:
            raise AssertionError(k)

    def relative(self, d, k, vals):
        if len(vals) != 1:
            self.err(SYNTAX, 'number of arguments')
            return
        code = isa_mod.op(d['code'])
        n = 1 if k == 'rel8' else 2
        v = to_int(vals[0])
        if vals[0] is not None and vals[0][2] == '#':
            self.err(SYNTAX, 'immediate branch target')
        if v is None:
            if vals[0] is not None:
                self.err(SYNTAX, 'branch target')
            self.emit(code + bytes(n))
            return
        disp = rel16(v - (self.sec.pc + len(code) + n))
        if n == 1:
            if not -128 <= disp <= 127:
                self.err(RANGE, 'branch out of range')
        else:
            d1 = rel16(disp + 1)
            if -128 <= d1 <= 127 and vals[0][2] != '>':
                self.err(INEFFICIENT, 'long branch')
        self.emit(code + (disp & ((1 << 8 * n) - 1)).to_bytes(n, 'big'))

    def memory(self, d, vals, imm):
        if not 1 <= len(vals) <= 2:
            self.err(SYNTAX, 'number of arguments')
            return
        if len(vals) == 2:
            self.indexed(d, vals, imm, False)
            return
        v = vals[0]
        if v is not None and v[0] == 'a':
            if not 1 <= len(v[1]) <= 2:
                self.err(SYNTAX, 'number of arguments')
                return
            self.indexed(d, v[1], imm, True)
            return
        if v is None:
            # assume the longest form until known
            if 'ext' in d:
                self.emit(isa_mod.op(d['ext']) + imm + bytes(2))
            else:
                self.emit(isa_mod.op(d['idx']) + imm + bytes(3))
                self.err(ILLEGAL, 'extended indexed form')
            return
        a = to_int(v)
        if a is None:
            self.err(SYNTAX, 'addressing mode')
            return
        a &= 0xffff
        attr = v[2]
        if 'dir' in d and (attr == '<' or (attr == '' and self.sec.dp == a >> 8)):
            self.emit(isa_mod.op(d['dir']) + imm + bytes([a & 0xff]))
        elif 'ext' in d and attr in ('', '>'):
            self.emit(isa_mod.op(d['ext']) + imm + a.to_bytes(2, 'big'))
        else:
            self.indexed(d, vals, imm, False)

    def indexed(self, d, vals, imm, ind):
        head = isa_mod.op(d['idx']) + imm
        off = vals[0]
        if off is not None and off[0] == 's':
            off = ('i', s2i(off[1]), off[2])
        if len(vals) == 1:
            if off is None:
                a = 0
            elif off[0] == 'i' and off[2] in ('', '>'):
                a = off[1]
            else:
                self.err(SYNTAX, 'addressing mode')
                return
            if not ind:
                self.err(ILLEGAL, 'extended indexed form')
            self.emit(head + bytes([0x9f if ind else 0x8f]) + (a & 0xffff).to_bytes(2, 'big'))
            return
        reg = vals[1]
        if off is None or reg is None:
            self.emit(head + b'\0')
            return
        pc = self.sec.pc + len(head)
        r = self.postbyte(off, reg, ind, pc)
        if r is None:
            self.err(SYNTAX, 'addressing mode')
            return
        self.emit(head + r)

    def postbyte(self, off, reg, ind, pc):
        """Postbyte and offset bytes, or None if there is no such mode.
        pc: address of the postbyte."""
        if reg[0] != 'r':
            return None
        name, rattr = reg[1], reg[2]
        t, v, attr = off
        if attr in ('#', '+', '++', '-x', '--x', 'x-'):
            return None
        if t == 'e' and attr:
            raise Unsure('size of an empty offset')
        ibit = 0x10 if ind else 0
        if name in ('x', 'y', 'u', 's'):
            sel = isa_mod.IDX_BITS[name]
            if rattr:
                if not (t == 'e' or (t == 'i' and v == 0 and not attr)):
                    return None
                code = {'+': 0x80, '++': 0x81, '-x': 0x82, '--x': 0x83}.get(rattr)
                if code is None:
                    return None
                if t != 'e' and code in (0x82, 0x83):
                    raise Unsure('zero offset with decrement')
                if ind and code in (0x80, 0x82):
                    self.err(ILLEGAL, 'indirect by one')
                return bytes([code | sel | ibit])
            if t == 'r':
                if attr:
                    return None
                code = {'a': 0x86, 'b': 0x85, 'd': 0x8b, 'e': 0x87, 'f': 0x8a, 'w': 0x8e}.get(v)
                if code is None:
                    return None
                return bytes([code | sel | ibit])
            if t == 'e':
                return bytes([0x84 | sel | ibit])
            if t != 'i':
                return None
            if not attr:
                attr = ('0' if v == 0 else '<<' if -16 <= v <= 15 and not ind else
                        '<' if -128 <= v <= 127 else '>')
            if attr == '0':
                return bytes([0x84 | sel | ibit])
            if attr == '<<':
                if ind:
                    return None
                return bytes([sel | v & 0x1f])
            if attr == '<':
                return bytes([0x88 | sel | ibit, v & 0xff])
            return bytes([0x89 | sel | ibit]) + (v & 0xffff).to_bytes(2, 'big')
        if name == 'w' and self.isa == 6309:
            base = 1 if ind else 0
            if rattr:
                if not (t == 'e' or (t == 'i' and v == 0 and not attr)):
                    return None
                code = {'++': 0xcf, '--x': 0xef}.get(rattr)
                if t != 'e':
                    raise Unsure('zero offset with increment of W')
                return None if code is None else bytes([code + base])
            if t == 'e' or (t == 'i' and v == 0 and not attr):
                return bytes([0x8f + base])
            if t != 'i' or attr in ('<', '<<'):
                return None
            return bytes([0xaf + base]) + (v & 0xffff).to_bytes(2, 'big')
        if name in ('pc', 'pcr'):
            if rattr or t == 'r':
                return None
            if t == 'e':
                if name == 'pcr':
                    raise Unsure('empty PCR target')
                return bytes([0x8c | ibit, 0])
            if t != 'i' or attr == '<<':
                return None
            d8, d16 = v, v
            if name == 'pcr':
                d8, d16 = rel16(v - (pc + 2)), v - (pc + 3)
            if attr == '<' or (not attr and -128 <= d8 <= 127):
                if name == 'pcr' and not -128 <= d8 <= 127:
                    self.err(RANGE, 'relative offset')
                return bytes([0x8c | ibit, d8 & 0xff])
            return bytes([0x8d | ibit]) + (d16 & 0xffff).to_bytes(2, 'big')
        return None

    def stack(self, d, vals):
        pb = 0
        for v in vals:
            if v is None:
                continue
            if v[0] != 'r':
                self.err(SYNTAX, 'stack operand')
                return
            if v[2]:
                self.err(SYNTAX, 'stack register with attribute')
                return
            if v[1] == d['own'] or v[1] not in isa_mod.STACK_BIT:
                self.err(SYNTAX, 'stack register')
                return
            pb |= isa_mod.STACK_BIT[v[1]]
        self.emit(isa_mod.op(d['code']) + bytes([pb]))

    def pair(self, d, vals):
        if len(vals) != 2:
            self.err(SYNTAX, 'number of arguments')
            return
        nib, size = [], []
        for v in vals:
            if v is None:
                nib.append(0)
                size.append(24)
                continue
            if v[0] == 'r':
                if v[2]:
                    self.err(SYNTAX, 'register with attribute')
                    return
                c = isa_mod.PAIR_CODE.get(v[1])
                if c is None:
                    self.err(SYNTAX, 'pair register')
                    return
                nib.append(c)
                size.append(isa_mod.PAIR_SIZE[v[1]])
            elif v[0] == 'i':
                if v[1] == 0 and self.isa == 6309:
                    nib.append(0xc)
                else:
                    self.err(ILLEGAL, 'numeric register')
                    if not 0 <= v[1] <= 15:
                        self.err(RANGE, 'numeric register')
                    nib.append(v[1] & 15)
                size.append(24)
            else:
                self.err(SYNTAX, 'pair operand')
                return
        if not size[0] & size[1]:
            self.err(ILLEGAL, 'size mismatch')
        self.emit(isa_mod.op(d['code']) + bytes([nib[0] << 4 | nib[1]]))

    def tfm(self, d, vals):
        if len(vals) != 2:
            self.err(SYNTAX, 'number of arguments')
            return
        nib = []
        for v in vals:
            if v is None:
                continue
            if v[0] == 'r':
                if v[1] not in isa_mod.TFM_CODE:
                    self.err(SYNTAX, 'TFM register')
                    return
                nib.append(isa_mod.TFM_CODE[v[1]])
            elif v[0] == 'i':
                raise Unsure('numeric TFM register')
            else:
                self.err(SYNTAX, 'TFM operand')
                return
        if None in vals:
            self.emit(isa_mod.op(d['code']) + b'\0')
            return
        sign = {'': '', '+': '+', 'x-': '-'}
        if vals[0][2] not in sign or vals[1][2] not in sign:
            self.err(SYNTAX, 'TFM mode')
            return
        m = isa_mod.TFM_MODE.get((sign[vals[0][2]], sign[vals[1][2]]))
        if m is None:
            self.err(SYNTAX, 'TFM mode')
            return
        self.emit(isa_mod.op(d['code'] + m) + bytes([nib[0] << 4 | nib[1]]))

    def bit(self, d, vals):
        if len(vals) != 4:
            self.err(SYNTAX, 'number of arguments')
            return
        v = vals[0]
        pb = 0xc0
        if v is None:
            pass
        elif v[0] == 'i':
            self.err(ILLEGAL, 'numeric register')
            pb = (v[1] & 3) << 6
        elif v[0] == 'r' and v[1] in isa_mod.BIT_CODE:
            if v[2]:
                self.err(SYNTAX, 'register with attribute')
                return
            pb = isa_mod.BIT_CODE[v[1]]
        else:
            self.err(SYNTAX, 'bit register')
            return
        for x in vals[1:]:
            if x is not None and x[0] != 'i':
                self.err(SYNTAX, 'bit operand')
                return
        for i, sh in ((1, 3), (2, 0)):
            if vals[i] is not None:
                if not 0 <= vals[i][1] <= 7:
                    self.err(RANGE, 'bit number')
                else:
                    pb |= vals[i][1] << sh
        a = vals[3][1] if vals[3] is not None else 0
        self.emit(isa_mod.op(d['code']) + bytes([pb, a & 0xff]))


import operator  # noqa: E402

COMPARE = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
           '!=': operator.ne}
ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}


def same(a, b):
    if a is None or b is None:
        return False
    if a[0] != b[0]:
        return False
    return a[1] == b[1]


def vdg(c, inverse):
    """ASCII to MC6847 display code."""
    if c >= 0x80:
        return c
    if c < 0x20:
        v = c
    elif c < 0x40:
        v = c + 0x40
    elif c < 0x60:
        v = c
    elif c == 0x60:
        v = 0x20
    else:
        v = c - 0x60
    return v ^ 0x40 if inverse else v
