"""C11: macros."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it expands at least one macro that uses an argument (errors: when the fault is in a '
        'macro definition or invocation); distinct by source')

KINDS = ['int', 'int', 'int', 'lit', 'sym', 'str', 'name', 'xreg', 'reg8', 'off', 'rlist', 'float', 'strsym']
TEXT = [chr(c) for c in range(32, 127)]


class MG:
    """Macro library whose calls can also be expanded by substitution."""

    def __init__(self, s):
        self.s = s
        self.macros = []        # dict(name, params, body)
        self.n = 0
        self.uses = 0
        self.local = False

    def uniq(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -- arguments, as written at top level
    def arg(self, kind):
        s = self.s
        if kind == 'int':
            return self.iexpr(s.i(0, 2))
        if kind == 'lit':
            return I(s.pick([0, 1, 9, 10, -1, -10, 255, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
                             -0x80000001, 1234567890123, 1 << 62, -(1 << 62), s.i(-99999, 99999)]))
        if kind == 'sym':
            return ID(s.pick(['alpha', 'beta', 'late', 'gamma']))
        if kind == 'str':
            return S(''.join(s.pick(TEXT + ['\n', '\r', '\xe9']) for _ in range(s.i(1, 8))))
        if kind == 'strsym':
            return ID('text')
        if kind == 'name':
            return s.pick([S(self.uniq('N')), I(s.pick([1000, 1000, 1 << 32, 1 << 50]) + self.n * 7 + s.i(0, 6)), S(self.uniq('q.'))]) \
                if s.draw(1) else S(self.uniq('v_'))
        if kind == 'xreg':
            return s.pick([reg(s.pick('xyus')), ID('ptr')])
        if kind == 'reg8':
            return reg(s.pick(['a', 'b', 'dp', 'cc']))
        if kind == 'rlist':
            return reg(s.pick(['x', 'y', 'd', 'a', 'b', 'pc', 'cc']))
        if kind == 'off':
            return s.pick([EMPTY, I(0), I(5), I(-16), I(16), I(127), I(-128), I(300), ID('beta')])
        if kind == 'float':
            return ('f', s.pick(['1.5', '2.25', '0.5', '100.75']))
        raise AssertionError(kind)

    def iexpr(self, d):
        s = self.s
        if d == 0 or s.p(40):
            return s.pick([lambda: I(s.i(0, 9)), lambda: I(s.i(0, 255)), lambda: I(-s.i(1, 200)),
                           lambda: ID(s.pick(['alpha', 'beta', 'gamma', 'late'])), lambda: ('chr', s.i(33, 126)),
                           lambda: I(s.i(0, 0xffff))])()
        op = s.pick(['+', '-', '*', '&', '|', '^', '<<', '==', '<'])
        r = I(s.i(0, 7)) if op == '<<' else self.iexpr(d - 1)
        return ('o', op, self.iexpr(d - 1), r)

    # -- references to parameters
    def par(self, params, kinds):
        c = [i + 1 for i, p in enumerate(params) if p in kinds]
        if not c:
            return None
        self.uses += 1
        return self.s.pick(c)

    def ibody(self, params):
        """Integer expression over the parameters."""
        s = self.s
        n = self.par(params, ('int', 'sym', 'float'))
        if n is None:
            return I(s.i(0, 300))
        k = s.draw(5)
        e = IP(n)
        if k <= 1:
            return e
        if k == 2:
            return ('o', s.pick(['+', '-', '*']), e, I(s.i(0, 9)))
        if k == 3:
            return ('o', s.pick(['*', '-', '/']), I(s.i(0, 9)), ('o', '+', e, I(1000000)))
        if k == 4:
            m = self.par(params, ('int', 'sym'))
            return ('o', s.pick(['+', '-', '&', '|', '==']), IP(m) if m else I(3), e)
        return ('u', s.pick(['-', '~', '!']), e)

    def strparts(self, params):
        s = self.s
        parts = []
        for _ in range(s.i(1, 3)):
            parts.append(''.join(s.pick(TEXT) for _ in range(s.i(1, 4))))
            n = self.par(params, ('str', 'name', 'xreg', 'strsym', 'lit', 'lit'))
            if n is not None:
                parts.append(('ip', n))
        if s.draw(1):
            parts.append('z9')
        return ('s', parts)

    def line(self, params, defined):
        s = self.s
        k = s.draw(13)
        if k <= 1:
            return [Line(None, s.pick(['fcb', 'fdb', 'fqb']), [self.ibody(params) for _ in range(s.i(1, 3))])]
        if k == 2:
            return [Line(None, s.pick(['fcc', 'fcn', 'fcs', 'fcv']), [self.strparts(params)])]
        if k == 3:
            n = self.par(params, ('str', 'strsym', 'int', 'float', 'lit'))
            return [Line(None, s.pick(['fcb', 'fdb', 'fcc']), [IP(n) if n else I(1)])]
        if k == 4:
            n = self.par(params, ('xreg',))
            o = self.par(params, ('off',))
            o = IP(o) if o and s.draw(1) else s.pick([EMPTY, self.ibody(params)])
            a = [o, IP(n) if n else reg('x')]
            return [Line(None, s.pick(['lda', 'ldx', 'leay', 'jmp']), [('arr', a)] if s.p(20) else a)]
        if k == 5:
            n = self.par(params, ('reg8',))
            return [Line(None, s.pick(['tfr', 'exg']), [IP(n) if n else reg('a'), reg('b')])]
        if k == 6:
            n = self.par(params, ('rlist',))
            a = [IP(n) if n else reg('x'), reg('dp')]
            if s.draw(1):
                a.reverse()
            return [Line(None, s.pick(['pshs', 'pulu']), a)]
        if k == 7:
            n = self.par(params, ('name',))
            if n is None:
                return [Line(None, 'nop')]
            parts = s.pick([lambda: ['l_', ('ip', n)], lambda: ['l', ('ip', n), '_x'], lambda: ['_', ('ip', n), '.', ('ip', n)],
                            lambda: ['m', ('ip', n), 'a'], lambda: ['n', ('ip', n), '9.x']])()
            if parts in defined:
                return [Line(None, s.pick(['fdb', 'ldx', 'lbra']), [('id', parts)])]
            defined.append(parts)
            lab_ = ('id', list(parts))
            return [s.pick([Line(lab_), Line(lab_, 'fcb', [I(1)]), Line(lab_, 'equ', [self.ibody(params)])])]
        if k == 8 and defined:
            return [Line(None, s.pick(['fdb', 'ldx']), [('id', list(s.pick(defined)))])]
        if k == 9:
            out = [Line(None, 'if', [self.ibody(params) if s.draw(1) else
                                     ('o', s.pick(['<', '==', '!=', '>']), self.ibody(params), I(s.i(0, 9)))])]
            out += self.simple(params)
            if s.draw(1):
                out += [Line(None, 'else')] + self.simple(params)
            return out + [Line(None, 'endif')]
        if k == 10 and self.local:
            n = s.i(0, 2)
            return s.pick([[Line(('n', n))], [Line(None, 'fdb', [(s.pick(['b', 'fw']), n)])],
                           [Line(('n', n), 'fcb', [I(7)]), Line(None, 'lbra', [('b', n)])]])
        if k == 11 and self.macros:
            return [self.nested(params)]
        if k == 12:
            return [Line(None, s.pick(['lda', 'ldb', 'cmpx']), [('attr', '#', self.ibody(params))])]
        return [Line(None, 'fdb', [self.ibody(params)])]

    def simple(self, params):
        return [Line(None, 'fdb', [self.ibody(params)]) for _ in range(self.s.i(0, 2))]

    def nested(self, params):
        """Call of an earlier macro from a body, with arguments passed on."""
        s = self.s
        c = [m for m in self.macros if m['depth'] < 4 and ('name' not in m['params'] or 'name' in params)
             and not m.get('nest_named')]
        if not c:
            return Line(None, 'nop')
        m = s.pick(c)
        args = []
        named = 0
        for kd in m['params']:
            n = self.par(params, (kd,) if kd != 'int' else ('int', 'sym', 'float'))
            if kd == 'name':
                named += 1
                self.n += 1
                args.append(('s', ['z%d' % self.n, ('ip', self.par(params, ('name',)))]))
            elif kd == 'str' and s.draw(1):
                args.append(self.strparts(params))
            elif n is not None and kd == 'int':
                args.append(IP(n) if s.draw(1) else ('o', '+', IP(n), I(s.i(0, 3))))
            elif n is not None:
                args.append(IP(n))
            else:
                args.append(self.arg(kd))
        if args == [EMPTY]:
            args = [I(5)]
        self.cur_depth = max(self.cur_depth, m['depth'] + 1)
        return Line(None, m['name'], args or None)

    def define(self):
        s = self.s
        params = [s.pick(KINDS) for _ in range(s.w((6, s.i(0, 4)), (2, s.i(5, 9)), (2, s.i(10, 14))))]
        self.cur_depth = 1
        body, defined = [], []
        for _ in range(s.w((1, 0), (12, s.i(1, 7)))):
            body += self.line(params, defined)
        m = dict(name=self.uniq(s.pick(['mac', 'Do.', '_put'])), params=params, body=body, depth=self.cur_depth)
        self.macros.append(m)
        return m

    def call(self):
        s = self.s
        m = s.pick(self.macros)
        args = [self.arg(k) for k in m['params']]
        if args == [EMPTY]:
            args = [I(5)]       # a lone empty argument cannot be written
        return m, args


def subst_expr(n, args):
    t = n[0]
    if t == 'id':
        parts = n[1]
        if len(parts) == 1 and not isinstance(parts[0], str):
            return args[parts[0][1] - 1]
        return ('id', paste(parts, args))
    if t == 's':
        return ('s', paste(n[1], args))
    if t == 'o':
        return ('o', n[1], subst_expr(n[2], args), subst_expr(n[3], args))
    if t == 'u':
        return ('u', n[1], subst_expr(n[2], args))
    if t == 'attr':
        return ('attr', n[1], subst_expr(n[2], args))
    if t == 'arr':
        return ('arr', [subst_expr(x, args) for x in n[1]])
    return n


STRSYM = 'sym text'


def paste(parts, args):
    """Text of pasted arguments, joined."""
    out = ''
    for p in parts:
        if isinstance(p, str):
            out += p
            continue
        a = args[p[1] - 1]
        if a[0] == 's':
            out += ''.join(a[1])
        elif a[0] == 'i':
            out += str(a[1])
        elif a[0] == 'u' and a[1] == '-' and a[2][0] == 'i':
            out += '-%d' % a[2][1]
        elif a[0] == 'reg':
            out += a[1]
        elif a == ID('text'):
            out += STRSYM
        elif a == ID('ptr'):
            out += 'u'
        else:
            raise AssertionError(a)
    return [out]


def expand(line, lib, params, args):
    """Lines equivalent to line with args substituted and calls expanded."""
    label = line.label
    if label is not None and label[0] == 'id':
        label = ('id', paste(label[1], args) if args is not None else label[1])
    a = [subst_expr(x, args) for x in line.args] if line.args is not None and args is not None else line.args
    m = lib.get(line.op)
    if m is None:
        return [Line(label, line.op, a)]
    out = [Line(label)] if label is not None else []
    for b in m['body']:
        out += expand(b, lib, m['params'], a or [])
    return out


def copy(ls):
    return [Line(l.label, l.op, l.args) for l in ls]


HEAD = [('alpha', I(3)), ('beta', I(0x1234)), ('gamma', I(-2)), ('ptr', reg('u')), ('text', S(STRSYM))]


def inline(s, env):
    """Same program with every invocation replaced by the substituted body."""
    g = MG(s)
    g.local = s.draw(1) == 1
    head = [org(0x2000)] + [Line(lab(n), 'equ', [v]) for n, v in HEAD]
    tail = [Line(lab('late'), 'equ', [I(s.pick([0, 1, 2, 77]))])]
    if g.local:
        head += [Line(('n', n)) for n in range(3)]
        tail += [Line(('n', n)) for n in range(3)]
    tail.append(fcb(s.i(0, 9)))
    mac, flat = copy(head), copy(head)
    calls = 0
    for _ in range(s.i(1, 4)):
        m = g.define()
        d = [Line(lab(m['name']), 'macro')] + copy(m['body']) + [Line(None, 'endm')]
        mac += d
        lib = {x['name']: x for x in g.macros}
        for _ in range(s.i(0, 3)):
            k = s.draw(4)
            if k == 0:
                ln = Line(None, 'fdb', [('pc',)])
                mac.append(ln)
                flat += copy([ln])
            else:
                m, args = g.call()
                # more arguments than the macro uses are harmless
                more = [I(1)] if s.p(5) else []
                label = lab(g.uniq('at')) if s.p(25) else None
                ln = Line(label, m['name'], (args + more) or None)
                mac.append(ln)
                flat += expand(ln, lib, [], None)
                calls += 1
    mac += copy(tail)
    flat += copy(tail)
    isa = 6309 if s.p(20) else 6809
    a = Case({MAIN: mac}, isa=isa)
    b = Case({MAIN: flat}, isa=isa)
    a.render(style_for(s, isa))
    b.render(render.Style(isa))
    b.texts = {MAIN: b.texts[MAIN]}
    opts = a.options()
    ra = run.asm(env, opts + ['-S', '-o', 'a.out', '-s', 'a.sym', MAIN], a.write(), ['a.out', 'a.sym'])
    rb = run.asm(env, opts + ['-S', '-o', 'b.out', '-s', 'b.sym', 'flat.s'], {'flat.s': b.texts[MAIN]},
                 ['b.out', 'b.sym'])
    if (ra.rc == 0) != (rb.rc == 0):
        raise Violation('macro program exits %d, expanded program %d\n%s\n%s' % (
            ra.rc, rb.rc, ra.stderr[:300].decode('latin-1'), rb.stderr[:300].decode('latin-1')))
    if ra.rc == 0:
        if ra.out['a.out'] != rb.out['b.out']:
            raise Violation('macro program %s, expanded program %s' % (
                outputs.show(outputs.srec(ra.out['a.out']).segs), outputs.show(outputs.srec(rb.out['b.out']).segs)))
        if sorted(ra.out['a.sym'].split(b'\n')) != sorted(rb.out['b.sym'].split(b'\n')):
            raise Violation('symbols differ between macro and expanded program')
    return Info(calls > 0 and g.uses > 0, ['rc %d' % ra.rc, '%d calls' % min(calls, 6)],
                a.source() + '\n--- expanded\n' + b.texts[MAIN], a.digest(), evals=2)


def programs(s, env):
    """Whole programs with macros, against the model."""
    case, g = program(s, feat=('macro', 'cond', 'local', 'str', 'set', 'section', 'include', 'org'), n=16)
    o, r = check(env, s, case)
    return info(case, o, any(m['params'] for m in g.macros), ['%d macros' % len(g.macros)])


def library(s, env):
    """Macro library programs (also with faults) against the model."""
    g = MG(s)
    g.local = s.draw(1) == 1
    lines = [org(0x2000)] + [Line(lab(n), 'equ', [v]) for n, v in HEAD]
    if g.local:
        lines += [Line(('n', n)) for n in range(3)]
    for _ in range(s.i(1, 4)):
        m = g.define()
        lines += [Line(lab(m['name']), 'macro')] + copy(m['body']) + [Line(None, 'endm')]
        for _ in range(s.i(0, 2)):
            m, args = g.call()
            lines.append(Line(None, m['name'], args or None))
    lines += [Line(('n', n)) for n in range(3)]
    lines += [Line(lab('late'), 'equ', [I(1)]), fcb(1)]
    k = s.draw(10)
    calls = [l for l in lines if l.op in {m['name'] for m in g.macros}]
    fault = 'none'
    if k == 1 and calls:
        l = s.pick(calls)
        if l.args:
            l.args = l.args[:s.draw(len(l.args) - 1)] or None
            fault = 'missing arguments'
    elif k == 2:
        m = s.pick(g.macros)
        lines[-1:-1] = [Line(lab(m['name']), 'macro')] + s.pick([[], [Line(None, 'nop')]]) + [Line(None, 'endm')]
        fault = 'redefined'
    elif k == 3:
        i = s.pick([i for i, l in enumerate(lines) if l.op == 'endm'])
        del lines[i]
        fault = 'no ENDM'
    elif k == 4:
        lines.insert(s.i(1, len(lines)), Line(None, 'endm'))
        fault = 'stray ENDM'
    elif k == 5:
        lines.insert(s.i(1, len(lines)), Line(None, 'macro'))
        lines.insert(s.i(1, len(lines)), Line(None, 'endm'))
        fault = 'nameless macro'
    elif k == 6 and calls:
        i = [i for i, l in enumerate(lines) if l.op == 'macro'][0]
        lines.insert(s.i(1, i), s.pick(calls))
        lines[:] = copy(lines)
        fault = 'called before definition'
    elif k == 7:
        lines.insert(s.i(1, len(lines)), Line(None, 'fcb', [IP(s.i(0, 3))]))
        fault = 'variable outside macro'
    elif k == 8:
        # not one of the arguments
        i = s.pick([i for i, l in enumerate(lines) if l.op == 'endm'])
        m = g.macros[sum(1 for l in lines[:i] if l.op == 'endm')]
        bad = s.pick([0, 0, len(m['params']) + 1, 99, 65536, 1 << 31, (1 << 32) - 1, (1 << 32) + 1, (1 << 33) + 1, (1 << 40) + len(m["params"])])
        lines.insert(i, s.pick([Line(None, 'fdb', [IP(bad)]), Line(None, 'fcc', [('s', ['a', ('ip', bad)])]),
                                Line(('id', ['bad_', ('ip', bad)])), Line(None, 'if', [IP(bad)])]))
        if lines[i].op == 'if':
            lines.insert(i + 1, Line(None, 'endif'))
        fault = 'no such argument'
    case = Case({MAIN: lines})
    o, r = check(env, s, case)
    return info(case, o, g.uses > 0, [fault])


def recursion(s, env):
    """Macros calling themselves, with and without an end."""
    k = s.draw(5)
    n = s.i(0, 9)
    pre = [org(0x1000)]
    names = ['ra', 'rb', 'rc']
    cyc = s.i(1, 3)
    lines = []
    for j in range(cyc):
        nxt = names[(j + 1) % cyc]
        lines += [Line(lab(names[j]), 'macro'), Line(None, 'fdb', [IP(1)])]
        step = Line(None, nxt, [('o', '-', IP(1), I(1)), ('s', [('ip', 2), 'x'])])
        if k <= 3:
            lines += [Line(None, 'if', [('o', '>', IP(1), I(0))]), step, Line(None, 'endif')]
        else:
            lines.append(step)
        if s.draw(1):
            lines.append(Line(None, 'fcc', [('s', ['<', ('ip', 2), '>'])]))
        if s.p(25):
            lines.append(Line(('id', ['lb_', ('ip', 2)])))
        lines.append(Line(None, 'endm'))
    files = {}
    call = [Line(None, 'ra', [I(n), S('q')])]
    depth = s.i(0, 7)
    if depth:
        # reached through included files, which count towards the depth too
        for d in range(depth):
            files['d%d.s' % d] = [Line(None, 'include', [S('d%d.s' % (d + 1))])] if d < depth - 1 else call
        call = [Line(None, 'include', [S('d0.s')])]
    files[MAIN] = pre + lines + call + [fcb(1)]
    case = Case(files)
    o, r = check(env, s, case)
    return info(case, o, n > 0 or k > 3, ['depth %d' % (n + depth)])


def generators(s, env):
    """Macros that define macros, symbols and sections."""
    lines = [org(0x1000)]
    names = [s.pick(['one', 'two', 'x1', 'A.b']) + str(i) for i in range(s.i(1, 4))]
    inner = [Line(None, 'fcb', [IP(1)]), Line(None, 'fcc', [('s', ['<', ('ip', 1), '>'])]),
             Line(('id', ['in_', ('ip', 2)]), 'fdb', [('pc',)])]
    inner = inner[:s.i(1, 3)]
    # mk name : defines macro put_<name>, and symbol def_<name>
    lines += [Line(lab('mk'), 'macro'), Line(('id', ['put_', ('ip', 1)]), 'macro')] + copy(inner)
    if s.draw(1):
        lines += [Line(None, 'if', [IP(1)]), Line(None, 'nop'), Line(None, 'endif')]
    lines += [Line(None, 'endm'), Line(('id', ['def_', ('ip', 1)]), 'equ', [IP(2)]), Line(None, 'endm')]
    wrap = s.draw(2)
    if wrap:
        lines += [Line(lab('mkw'), 'macro'), Line(None, 'mk', [('s', ['w', ('ip', 1)]), ('o', '+', IP(2), I(1))]),
                  Line(None, 'endm')]
    u = 0
    for n in names:
        w = wrap and s.draw(1)
        if s.p(90):
            lines.append(Line(None, 'mkw' if w else 'mk', [S(n), I(s.i(0, 300))]))
        real = ('w' if w else '') + n
        for _ in range(s.i(0, 2)):
            u += 1
            lines.append(Line(None, 'put_' + real, [I(s.i(0, 255)), S('k%d' % u)]))
        lines.append(Line(None, 'fdb', [ID('def_' + real)]))
    case = Case({MAIN: lines + [fcb(2)]})
    o, r = check(env, s, case, symbols=True)
    return info(case, o, True, ['%d generated' % len(names)])


def wide(s, env):
    """Invocations with hundreds of arguments, each told apart."""
    n = s.pick([9, 10, 11, 99, 100, 101, 110, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1100, s.i(10, 400)])
    base = s.i(0, 30000)
    refs = [s.pick([1, 9, 10, 11, 12, 99, 100, 101, 110, 111, 120, 128, 199, 200, 255, 256, 257, 300, 1000, 1001,
                    n, n - 1, n // 2, s.i(1, n)]) for _ in range(s.i(1, 8))]
    refs = [r for r in refs if r <= n] or [n]
    body = [Line(None, 'fdb', [IP(r)]) for r in refs]
    body += [Line(None, 'fcc', [('s', ['%d=' % r, ('ip', r), ';'])]) for r in refs[:3]]
    body += [Line(('id', ['l%d_' % i, ('ip', r)]), 'fdb', [('pc',)]) for i, r in enumerate(refs[:3])]
    args = [I(base + i) for i in range(n)]
    lines = [org(0x1000), Line(lab('m'), 'macro')] + copy(body) + [Line(None, 'endm')]
    if s.draw(2) == 0:
        # handed on to another macro, in another order
        k = s.i(1, 4)
        lines += [Line(lab('w'), 'macro'), Line(None, 'm', [IP((i + k) % n + 1) for i in range(n)]), Line(None, 'endm'),
                  Line(None, 'w', args)]
    else:
        lines.append(Line(None, 'm', args))
    case = Case({MAIN: lines + [fcb(1)]})
    o, r = check(env, s, case, symbols=True)
    return info(case, o, True, ['%d+ arguments' % (n // 100 * 100)])


LONG = [1, 2, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1023, 1024, 1025]


def large(s, env):
    """Macros with long bodies, long names, long strings pasted of many pieces, and
    many of them; definitions inside definitions; conditionals in bodies."""
    lines = [org(0x1000)]
    pre = s.pick(['m', 'put_', 'a.b', 'Macro_with_a_name_']) * s.pick([1, 1, 8, 16, 40, 64, 128])
    nm = s.w((6, s.i(1, 3)), (1, s.i(4, 60)))
    macs, depths = [], {}
    big = 0
    for i in range(nm):
        name = pre + s.pick(['%d', '_%d', '%d_end']) % i
        body = []
        n = s.pick(LONG) if nm < 4 else s.pick(LONG[:6])
        big = max(big, n)
        k = s.draw(4)
        if k <= 1:
            a = s.i(0, 99)
            for j in range(n):
                body.append(Line(None, 'fcb', [I((a + j) & 0xff)]) if s.p(90) else Line(None, 'fdb', [s.pick([('pc',), IP(1), IP(2)])]))
        elif k == 2:
            # a piece for every argument
            parts = []
            for j in range(min(n, 300)):
                parts += [chr(97 + j % 26), ('ip', s.i(1, 3))] if s.p(70) else [('ip', s.i(1, 3))]
            body = [Line(None, s.pick(['fcc', 'fcn', 'fcs']), [('s', parts)])]
        elif k == 3:
            for j in range(min(n, 60)):
                body.append(Line(None, 'if', [('o', '==', IP(1), I(s.i(0, 3)))]))
                body.append(fcb(j))
                if s.p(30):
                    body += [Line(None, 'else'), fcb(j + 100)]
            body += [Line(None, 'endif')] * sum(1 for l in body if l.op == 'if')
            body = copy(body)
        else:
            # definitions within definitions, to the depth given
            depth = s.i(1, 7)
            depths[name] = depth
            inner = [Line(None, 'fcb', [IP(1)])]
            for j in range(depth):
                inner = [Line(lab('n%d_%d' % (i, j)), 'macro'), Line(None, 'fcb', [I(j)])] + inner + [Line(None, 'endm')]
            body = inner + [Line(None, 'fcb', [I(200)])]
        if s.p(8):
            body = body[:s.draw(len(body))]
        lines += [Line(lab(name), 'macro')] + body + [Line(None, 'endm')]
        macs.append((name, k))
    u = 0
    done = set()
    for _ in range(s.i(1, 4)):
        name, k = s.pick(macs)
        third = S(''.join(chr(65 + j % 58) for j in range(s.pick([1, 3, 80, 250, 256, 300, 1000]))).replace('\\', '/')) if k == 2 and s.p(40) else I(s.i(0, 9))
        lines.append(Line(None, name, [I(s.i(0, 3)), S('t%d' % u) if k == 2 and s.draw(1) else I(s.i(0, 255)), third]))
        if k == 4:
            i = macs.index((name, k))
            if i in done:
                lines.pop()
                continue
            done.add(i)
            for j in range(depths[name] - 1, s.i(0, depths[name]) - 1, -1):
                if s.p(98):
                    lines.append(Line(None, 'n%d_%d' % (i, j), [I(s.i(0, 9))]))
        u += 1
    if s.p(5):
        # nearly the name of one
        lines.append(Line(None, macs[0][0] + 'x', [I(1), I(2), I(3)]))
    lines.append(fcb(1))
    case = Case({MAIN: lines})
    o, r = check(env, s, case)
    return info(case, o, True, ['bodies up to %d lines' % big, '%s macros' % ('1-3' if nm < 4 else '4 or more')])


def calls(s, env):
    """Macros invoked any number of times, by each other too, between local labels and conditionals."""
    n = s.pick([2, 10, 31, 33, 63, 65, 100, 127, 129, 200, 255, 256, 257, 300, 500, 513, 700, 1000, 1025, 2000])
    nm = s.w((2, s.i(1, 3)), (1, s.i(4, 20)), (1, s.pick([31, 33, 65, 129, 257])))
    macs, lines, cost, last = [], [org(0x1000)], [], []
    late = s.p(10)
    for i in range(nm):
        body = []
        k = s.draw(7)
        c = 1
        if k == 0:
            body = [Line(None, 'fcb', [IP(1), IP(2)])]
        elif k == 1:
            body = [Line(('n', 1)), Line(None, 'fcb', [IP(1)]), Line(None, 'bra', [('b', 1)])]
        elif k == 2:
            body = [Line(None, 'if', [('o', s.pick('<>&'), IP(1), IP(2))]), Line(None, 'fcb', [IP(2)]), Line(None, 'else'),
                    Line(None, 'fdb', [IP(1)]), Line(None, 'endif')]
        elif k == 3:
            body = [Line(None, 'fcc', [('s', ['v', ('ip', 1), '.', ('ip', 2)])])]
        elif k == 4 and macs and min(cost) < 8:
            j = s.pick([x for x in range(len(macs)) if cost[x] < 8])
            body = [Line(None, macs[j], [IP(2), IP(1)]), Line(None, 'fcb', [IP(1)]), Line(None, macs[j], [IP(1), I(s.i(0, 9))])]
            c += 2 * cost[j]
        elif k == 5:
            body = [Line(lab('cnt'), 'set', [('o', '+', ID('cnt'), IP(1))]), Line(None, 'fcb', [('o', '&', ID('cnt'), I(255))])]
        elif k == 6:
            body = []
        else:
            body = [Line(None, 'fdb', [('pc',)]), Line(None, 'rmb', [('o', '&', IP(1), I(1))])]
        nm_ = s.pick(['m%d', 'M%d_', 'mac.%d']) % i
        macs.append(nm_)
        cost.append(c)
        d = [Line(lab(nm_), 'macro')] + body + [Line(None, 'endm')]
        if late and s.p(10):
            last += d
        else:
            lines += d
    lines.append(Line(lab('cnt'), 'set', [I(0)]))
    left = n
    sel = s.draw(2)
    while left > 0:
        j = 0 if sel == 0 else s.draw(nm - 1) if sel == 1 else s.w((3, nm - 1), (1, s.draw(nm - 1)))
        left -= cost[j]
        lines.append(Line(lab('l%d' % len(lines)) if s.p(2) else None, macs[j], [I(s.i(0, 255)), I(s.i(0, 99))]))
        if s.p(5):
            lines.append(Line(('n', s.i(1, 2))))
    lines += last + [fcb(1)]
    case = Case({MAIN: lines})
    o, r = check(env, s, case)
    return info(case, o, True, ['%d+ calls' % (n // 100 * 100), '%d+ macros' % (nm // 20 * 20)])


PARTS = [Part('text', textcases.part(focus='call'), 8000, 100000), Part('calls', calls, 1000, 8000), Part('large', large, 2500, 20000), Part('inline', inline, 29500, 250000), Part('library', library, 29500, 250000),
         Part('programs', programs, 18900, 150000), Part('recursion', recursion, 10500, 60000),
         Part('generators', generators, 12600, 80000),
         Part('wide', wide, 840, 6000)]
ASSUME = ['opcodes are not pasted from arguments, and register arguments carry no increments',
          'arguments are values: * and local labels in an argument stand for their value at the invocation']
