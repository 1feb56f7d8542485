"""C16: symbols and exports files."""
import re
from decimal import Decimal

from .. import textcases
from .common import *   # noqa: F401,F403
from .c11 import MG, HEAD, copy

RULE = ('a case counts when the file written and included again has at least one entry that is not a small integer '
        '(string, float, register, negative or large value, macro body); distinct by source')


def value_node(v):
    """Expression standing for a value of the model."""
    if v[0] == 'i':
        return I(v[1])
    if v[0] == 'f':
        t = format(Decimal(abs(v[1])), 'f')
        t = ('f', t if '.' in t else t + '.')
        return ('u', '-', t) if v[1] < 0 else t
    if v[0] == 's':
        return S(v[1])
    return reg(v[1], v[2])


def interesting(v):
    return v is not None and (v[0] != 'i' or not 0 <= v[1] < 0x8000)


def entries(data):
    """Names defined by an exports file, outside macro bodies, in order."""
    text = data.decode('latin-1')
    if text and not text.endswith('\n'):
        raise Violation('exports file does not end with a newline')
    names, depth = [], 0
    for l in text[:-1].split('\n') if text else []:
        f = re.split('[ \t]+', l, maxsplit=2) + ['', '']
        op = f[1].lower()
        if op == 'macro':
            if not depth:
                names.append((f[0], 'macro'))
            depth += 1
        elif op == 'endm':
            depth -= 1
            if depth < 0:
                raise Violation('exports file has an ENDM too many')
        elif not depth:
            if op != 'equ' or not f[0]:
                raise Violation('unexpected line %r in exports file' % l)
            names.append((f[0], 'equ'))
    if depth:
        raise Violation('exports file has an unfinished macro')
    return names


def check_exports(data, o):
    got = entries(data)
    want = [(n, 'macro' if n in o.macros else 'equ') for n in o.exports]
    if sorted(got) != sorted(want):
        raise Violation('exports file defines %s instead of %s' % (sorted(got), sorted(want)))


def as_lines(o, names):
    """What including a file recording names must mean."""
    out = []
    for n in names:
        if n in o.macros:
            out += [Line(lab(n), 'macro')] + [Line(l.label, l.op, l.args) for l in o.macros[n]] + [Line(None, 'endm')]
        else:
            out.append(Line(lab(n), 'equ', [value_node(o.symbols[n])]))
    return out


def order_key(kinds):
    return lambda n: kinds.index(n) if n in kinds else -1


def include_again(s, env, o, fname, data, names, rest, what, isa=6809, extra=None):
    """A program including the file behaves like one with the definitions."""
    # macros may be called by other recorded macros only after all are defined: order is irrelevant to the model
    lines = [Line(None, 'include', [S(fname)])] + rest
    case = Case({MAIN: lines, fname: as_lines(o, names)}, isa=isa)
    case.render(render.Style(isa))
    case.texts[fname] = data.decode('latin-1')
    try:
        return case, core.diff(case, env, fmt='C', symbols=True)
    except Violation as v:
        raise Violation('%s included in another program: %s' % (what, v.msg))


# -- values ---------------------------------------------------------------------------

def a_value(s, prev, regs):
    """(expression, kind)"""
    k = s.draw(15)
    if k <= 2:
        return I(s.i(0, 300)), 'int'
    if k == 3:
        return I(-s.pick([1, 2, 127, 128, 129, 255, 256, 32768, 32769, 65535, 65536, 99999])), 'negative'
    if k == 4:
        return I(s.pick([65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff,
                         0x7ffffffffffffffe, 10**15])), 'large'
    if k == 5:
        return I(-s.pick([0x7fffffff, 0x80000000, 0x80000001, 0x100000000, 0x7fffffffffffffff])), 'large negative'
    if k <= 8:
        n = s.i(1, 12)
        t = ''.join(s.pick([chr(s.i(32, 126)), s.pick('/"\\&;\'*{}019nrt'), s.pick('\n\r\t'), chr(s.i(128, 255)),
                            s.pick(['\\1', '&1', '&{2}', '\\{3}', '//', '&&', '\\\\'])]) for _ in range(n))
        return S(t), 'string'
    if k <= 10:
        t = s.pick(['0.1', '0.5', '1.5', '3.14159265358979', '100.25', '65535.9', '0.000001', '0.0000001',
                    '123456789.123456789', '2.', '.75', '1000000000000.5', '0.3333333333333333333'])
        e = ('f', t)
        j = s.draw(3)
        if j == 1:
            e = ('u', '-', e)
        elif j == 2:
            e = ('o', '/', I(s.i(-20, 200)), I(s.i(1, 97)))
        elif j == 3:
            e = ('o', '*', e, I(s.pick([3, 7, 1000, 1000000])))
        return e, 'float'
    if k <= 12:
        r = s.pick([r for r in ('x', 'y', 'u', 's', 'a', 'b', 'd', 'pc', 'pcr', 'cc', 'dp', 'w', 'e', 'f', 'q', 'v')
                    if r in regs])
        if r in ('x', 'y', 'u', 's', 'w') and s.draw(1):
            return reg(r, s.pick(['+', '++', '-x', '--x'] + (['x-'] if r != 'w' else []))), 'register with attribute'
        return reg(r), 'register'
    if k == 13 and prev:
        return ID(s.pick(prev)), 'alias'
    if k == 14 and prev:
        return ('o', '+', I(1), I(s.i(0, 99))), 'expression'
    return ('pc',), 'pc'


def uses(s, name, v, isa):
    """Lines whose code depends on the value."""
    if v[0] == 'i':
        return [s.pick([Line(None, 'fqb', [ID(name)]), Line(None, 'fqb', [('o', '>>', ID(name), I(32)), ID(name)]),
                        Line(None, 'fcb', [('o', '<', ID(name), I(s.i(-3, 3))), ID(name)])])]
    if v[0] == 'f':
        if abs(v[1]) < 1e9:
            return [Line(None, 'fqb', [('o', '*', ID(name), I(s.pick([1, 10, 1000]))),
                                       ('o', '==', ID(name), value_node(v))])]
        return [Line(None, 'fcb', [('o', '==', ID(name), value_node(v))])]
    if v[0] == 's':
        return [Line(None, s.pick(['fcc', 'fcn', 'fcs', 'fdb']), [ID(name)])]
    if v[1] in ('x', 'y', 'u', 's') and v[2] in ('', '+', '++', '-x', '--x'):
        return [Line(None, 'lda', [EMPTY, ID(name)])]
    if v[1] in ('a', 'b', 'cc', 'dp') and not v[2]:
        return [Line(None, 'tfr', [ID(name), reg('b')])]
    if v[1] in ('e', 'f') and not v[2] and isa == 6309:
        return [Line(None, 'tfr', [ID(name), reg('a')])]
    return []


def values(s, env):
    isa = s.pick([6309, 6809])
    g = Gen(s, isa=isa)
    lines = [org(s.pick([0x1000, 0, 0x8000, 0xf000]))]
    kinds = {}
    names = []
    many = s.p(4)
    for _ in range(s.length(40, 400, 100) if many else s.length(1, 14, 5)):
        e, kind = a_value(s, names, g.regs)
        n = g.name('sym') if many else g.name()
        k = s.draw(9)
        if k == 0 and kind not in ('register', 'register with attribute'):
            lines.append(Line(lab(n)) if s.draw(1) else Line(lab(n), 'fcb', [I(s.i(0, 255))]))
            kind = 'label'
        elif k == 1:
            lines.append(Line(lab(n), 'set', [I(3)]))
            lines.append(Line(lab(n), 'set', [e]))
        else:
            lines.append(Line(lab(n), 'equ', [e]))
        kinds[n] = kind
        names.append(n)
        if s.p(10):
            lines.append(Line(('n', s.i(0, 9))))
    defines = [(g.name('d'), s.pick([0, 1, 255, -1, 65536])) for _ in range(s.w((3, 0), (1, 1), (1, 2)))]
    want = [n for n in names if s.p(60)]
    exps = []
    for n in want:
        l = Line(None, 'export', [ID(n)])
        if s.draw(1):
            exps.append(l)
        else:
            lines.insert(s.i(0, len(lines)), l)
    if want and s.p(30):
        exps.append(Line(None, 'export', [ID(n) for n in s.sample(names, 2)]))
    a = Case({MAIN: lines + exps + [fcb(1)]}, isa=isa, defines=defines)
    a.render(style_for(s, isa))
    o = a.model()
    if not o.ok:
        raise Discard('not accepted')
    for n, v in o.symbols.items():
        if v is None or v[0] == 'i' and v[1] == -1 << 63:
            raise Discard('value')
    _, r = core.diff(a, env, symbols=True, exports=True, o=o)
    sy, ex = r.out['out.sym'], r.out['out.exp']
    check_exports(ex, o)
    try:
        outputs.check_symbols(ex, {n: o.symbols[n] for n in o.exports})
    except Bad as e:
        raise Violation('exports file: %s' % e)
    rest = [org(0x2000)]
    u = []
    for n in sorted(o.symbols):
        u.append((n, uses(s, n, o.symbols[n], isa)))
    include_again(s, env, o, 'a.sym', sy, list(o.symbols), rest + [l for n, x in u for l in x] + [fcb(2)],
                  'symbols file', isa)
    include_again(s, env, o, 'a.exp', ex, o.exports,
                  rest + [l for n, x in u if n in o.exports for l in x] + [fcb(2)], 'exports file', isa)
    return Info(any(interesting(v) for v in o.symbols.values()), sorted(set(kinds.values())),
                a.source(), a.digest(), evals=3)


# -- macros ---------------------------------------------------------------------------

def library(s, env):
    """Macro libraries exported, included and called."""
    g = MG(s)
    g.local = s.draw(1) == 1
    isa = 6309 if s.p(20) else 6809
    head = [Line(lab(n), 'equ', [v]) for n, v in HEAD] + [Line(lab('late'), 'equ', [I(s.pick([0, 1, 77]))])]
    lines = list(head)
    for _ in range(s.i(1, 5)):
        m = g.define()
        lines += [Line(lab(m['name']), 'macro')] + copy(m['body']) + [Line(None, 'endm')]
    macs = [m['name'] for m in g.macros]
    if s.draw(1):
        # the library may use its macros itself
        m, args = g.call()
        lines += ([Line(('n', n)) for n in range(3)] if g.local else []) + [Line(None, m['name'], args or None)] + \
            ([Line(('n', n)) for n in range(3)] if g.local else [])
    exported = macs if s.draw(1) else [m for m in macs if s.p(70)]
    exported = exported + [n for n, _ in HEAD + [('late', None)] if s.draw(1)]
    for n in exported:
        lines.insert(s.i(0, len(lines)) if s.p(30) else len(lines), Line(None, 'export', [ID(n)]))
    # an EXPORT inside a body is exported on expansion only
    lines.append(fcb(1))
    a = Case({MAIN: lines}, isa=isa)
    a.render(style_for(s, isa))
    o = a.model()
    if not o.ok:
        raise Discard('not accepted')
    _, r = core.diff(a, env, exports=True, symbols=s.p(30), o=o)
    ex = r.out['out.exp']
    check_exports(ex, o)
    rest = [l for l in head if l.label[1][0] not in o.exports]
    for m in g.macros:
        if m['name'] not in o.exports:
            rest += [Line(lab(m['name']), 'macro')] + copy(m['body']) + [Line(None, 'endm')]
    rest.append(org(0x3000))
    if g.local:
        rest += [Line(('n', n)) for n in range(3)]
    calls = 0
    for _ in range(s.i(1, 5)):
        m, args = g.call()
        calls += m['name'] in o.exports
        rest.append(Line(None, m['name'], args or None))
    if g.local:
        rest += [Line(('n', n)) for n in range(3)]
    rest.append(fcb(2))
    case, (o2, r2) = include_again(s, env, o, 'a.exp', ex, o.exports, rest, 'exports file', isa)
    # exporting what was included writes the same again
    # (no calls: those would leave the addressing prefix last applied to an
    # argument in the calling body, which is harmless)
    rest2 = [Line(None, 'export', [ID(n)]) for n in o.exports]
    rest2 += [l for l in head if l.label[1][0] not in o.exports] + [fcb(2)]
    if s.p(40) and o.exports:
        c3 = Case({MAIN: [Line(None, 'include', [S('a.exp')])] + rest2, 'a.exp': as_lines(o, o.exports)}, isa=isa)
        c3.render(render.Style(isa))
        c3.texts['a.exp'] = ex.decode('latin-1')
        o3 = c3.model()
        _, r3 = core.diff(c3, env, exports=True, o=o3)
        if o3.ok and not o3.overlap:
            e3 = r3.out['out.exp']
            check_exports(e3, o3)
            if not set(blocks(ex)) <= set(blocks(e3)):
                raise Violation('exports file changes when its contents are exported again:\n%s\n%s' % (
                    ex.decode('latin-1'), e3.decode('latin-1')))
    return Info(calls > 0, [verdict(o2), '%d exports' % min(9, len(o.exports))], a.source(), a.digest(), evals=2)


def blocks(data):
    """Exports file as a list of definitions."""
    out, depth = [], 0
    for l in data.decode('latin-1').split('\n')[:-1]:
        f = re.split('[ \t]+', l, maxsplit=2) + ['', '']
        if f[1].lower() == 'macro':
            if not depth:
                out.append('')
            depth += 1
        elif not depth:
            out.append('')
        if f[1].lower() == 'endm':
            depth -= 1
        out[-1] += l + '\n'
    return out


def programs(s, env):
    """Whole programs: everything but the code itself moved to an exports or
    symbols file."""
    case, g = program(s, feat=('macro', 'cond', 'local', 'str', 'section', 'org', 'setdp'), n=14)
    macs = [m['name'] for m in g.macros]
    consts = [d['name'] for d in g.syms if d['kind'] in ('const', 'str')]
    for n in macs + consts:
        if s.p(80):
            case.files[MAIN].append(Line(None, 'export', [ID(n)]))
    case.render(style_for(s, case.isa))
    o = case.model()
    if not o.ok or o.overlap:
        raise Discard('not accepted')
    _, r = core.diff(case, env, exports=True, symbols=True, o=o)
    ex = r.out['out.exp']
    check_exports(ex, o)
    rest, depth, skip = [], 0, False
    for l in case.files[MAIN]:
        if l.op == 'macro' and depth == 0:
            depth = 1
            skip = l.label[1][0] in o.exports
        if depth:
            if not skip:
                rest.append(Line(l.label, l.op, l.args))
            if l.op == 'endm':
                depth = 0
            continue
        if l.op == 'export':
            continue
        if l.op == 'equ' and len(l.label[1]) == 1 and l.label[1][0] in o.exports:
            continue
        rest.append(Line(l.label, l.op, l.args, l.comment))
    _, (o2, r2) = include_again(s, env, o, 'a.exp', ex, o.exports, rest, 'exports file', case.isa)
    same = o2.ok and o2.segments == o.segments
    return Info(bool(o.exports), [verdict(o2), 'same code' if same else 'different code'], case.source(),
                case.digest(), evals=2)


def bodies(s, env):
    """Every kind of line in an exported body, nested definitions included."""
    g = Gen(s, feat=('local', 'str', 'cond', 'org', 'section', 'setdp', 'put'))
    g.params = ['int', 'str', 'xreg', 'name']
    g.nodef = 1
    for n, k in (('k1', 'const'), ('k2', 'const'), ('t1', 'str')):
        g.syms.append(dict(name=n, kind=k, done=True, order=len(g.syms)))
    body = []
    for _ in range(s.i(1, 6)):
        g.lines = []
        k = s.draw(9)
        if k == 0:
            g.put(Line(None, s.pick(['fcb', 'fdb', 'fqb']), [g.expr(4), g.expr(3)]))
        elif k == 1:
            g.put(Line(None, 'lda', g.indexed()))
        elif k == 2:
            g.put(Line(('id', ['q_', ('ip', 4), '_%d' % len(body)]), s.pick(['equ', 'set']), [g.expr(3)]))
        elif k == 3:
            g.put(Line(None, 'if', [g.expr(3)]))
            g.put(Line(None, 'fcb', [g.expr(2)]))
            g.put(Line(None, 'elsif', [g.condition()]))
            g.put(Line(None, 'else'))
            g.put(g.data())
            g.put(Line(None, 'endif'))
        elif k == 4:
            # nested definition, called at once
            nm = ['in_', ('ip', 4), 'x%d' % len(body)]
            g.put(Line(('id', nm), 'macro'))
            for _ in range(s.i(1, 3)):
                # the variables of the inner macro are its own
                g.put(s.pick([Line(None, 'fcb', [IP(1)]), Line(None, 'fdb', [('o', '*', IP(1), ('pc',))]),
                              Line(None, 'fcc', [('s', ['a/', ('ip', 1), '\\"&'])])]))
            g.put(Line(None, 'endm'))
        elif k == 5:
            g.put(Line(None, s.pick(['include', 'includebin']), [('s', ['f', ('ip', 1)])]))
            g.lines = []
            g.put(g.instr())
        elif k == 6:
            g.put(Line(None, 'fcc', [g.strnode()]))
        elif k == 7:
            g.put(g.data())
        elif k == 8:
            g.statement()
        else:
            g.put(g.instr())
        body += g.lines
    isa = g.isa
    defs = [Line(lab('k1'), 'equ', [g.const()]), Line(lab('k2'), 'equ', [g.const()]),
            Line(lab('t1'), 'equ', [S(g.text())])]
    mac = [Line(lab('mac'), 'macro')] + body + [Line(None, 'endm')]
    a = Case({MAIN: mac + [Line(None, 'export', [ID('mac')]), fcb(1)]}, isa=isa)
    a.render(style_for(s, isa))
    o = a.model()
    if not o.ok:
        raise Discard('not accepted')
    _, r = core.diff(a, env, exports=True, o=o)
    ex = r.out['out.exp']
    check_exports(ex, o)
    rest = defs + [org(0x1000)] + [Line(('n', n)) for n in range(4)]
    calls = s.i(1, 3)
    for k in range(calls):
        rest.append(Line(None, 'mac', [g.const(), S(g.text()), reg(s.pick('xyus')), S('n%d' % k)]))
    rest += [Line(('n', n)) for n in range(4)] + [fcb(2)]
    _, (o2, r2) = include_again(s, env, o, 'a.exp', ex, o.exports, rest, 'exports file', isa)
    return Info(True, [verdict(o2)], a.source(), a.digest(), evals=2)


def faults(s, env):
    """Exports that can't be written make the run fail; conditional exports."""
    lines = [org(0x1000), Line(lab('one'), 'equ', [I(1)]), Line(lab('two'), 'equ', [S('2')])]
    lines += [Line(lab('mac'), 'macro'), Line(None, 'fcb', [IP(1)]), Line(None, 'endm')]
    k = s.draw(5)
    if k == 0:
        lines.append(Line(None, 'export', [ID('nowhere')]))
    elif k == 1:
        lines += [Line(None, 'if', [I(s.i(0, 1))]), Line(None, 'export', [ID(s.pick(['one', 'mac']))]),
                  Line(None, 'endif')]
    elif k == 2:
        lines += [Line(lab('ex'), 'macro'), Line(None, 'export', [('id', ['t', ('ip', 1)])]), Line(None, 'endm'),
                  Line(None, 'ex', [S(s.pick(['wo', 'hree']))])]
    elif k == 3:
        lines.append(Line(None, 'export', [ID(n) for n in s.shuffle(['one', 'two', 'mac', 'one', 'mac'])]))
    elif k == 4:
        lines.insert(0, Line(None, 'export', [ID('later'), ID('mac2')]))
        lines += [Line(lab('later'), 'fcb', [I(2)]), Line(lab('mac2'), 'macro'), Line(None, 'nop'), Line(None, 'endm')]
    else:
        lines.append(Line(None, 'fcb', [I(1)]))     # nothing exported
    lines.append(Line(None, 'mac', [I(s.i(0, 255))]))
    case = Case({MAIN: lines})
    case.render(style_for(s, 6809))
    o = case.model()
    _, r = core.diff(case, env, exports=True, o=o, symbols=s.draw(1))
    if r.rc == 0:
        check_exports(r.out['out.exp'] or b'', o)
    return info(case, o, k < 5)


Bad = outputs.Bad
COUNT = [1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513]


def many(s, env):
    """Hundreds of entries, long names, long strings, long bodies: files of any
    size come back whole."""
    n = s.pick(COUNT)
    stem = s.pick(['s', 'val_', 'x.' * 30, 'Long_name_' * 12, 'q' * 250]) 
    lines, names = [], []
    for i in range(n):
        nm = '%s%d' % (stem, i)
        j = s.draw(9)
        if j <= 5:
            v = I(s.pick([i, -i, i * 1000003, 1 << (i % 62)]))
        elif j == 6:
            v = S(''.join(chr(33 + (i + q) % 90) for q in range(s.pick([1, 20, 100, 255, 256, 257, 1000, 3000] if n < 40 else [1, 9]))))
        elif j == 7:
            v = ('f', '%d.%d' % (i, s.i(1, 999)))
        elif j == 8:
            v = reg(s.pick('xyuab'))
        else:
            v = None
            ls = s.pick(COUNT) if n < 40 else s.i(1, 5)
            lines.append(Line(lab(nm), 'macro'))
            for q in range(ls):
                lines.append(s.pick([Line(None, 'fcb', [I(q & 255), IP(1)]), Line(None, 'fcb', [I(q & 255)]),
                                     Line(None, 'fcc', [('s', ['t%d' % q, ('ip', 2)])]),
                                     Line(('id', ['l%d_' % q, ('ip', 2)]), 'fcb', [I(q & 255)])]))
            lines.append(Line(None, 'endm'))
        if v is not None:
            lines.append(Line(lab(nm), s.pick(['equ', 'equ', 'set']), [v]))
        names.append((nm, j))
    picked = names if s.draw(1) else [x for x in names if s.p(70)] or names
    # one EXPORT for each, or lists of any length
    rest = list(picked)
    while rest:
        k = s.pick([1, 1, 2, 10, 64, 65, 128, 300])
        lines.append(Line(None, 'export', [ID(x) for x, _ in rest[:k]]))
        rest = rest[k:]
    a = Case({MAIN: lines + [fcb(1)]})
    a.render(render.Style(6809))
    o = a.model()
    if not o.ok:
        raise Discard('not accepted')
    _, r = core.diff(a, env, exports=True, symbols=True, o=o)
    ex = r.out['out.exp']
    check_exports(ex, o)
    # the symbols file too
    use = []
    for x, j in picked:
        if x not in o.exports or n > 40 and not s.p(30):
            continue
        use.append(Line(None, x, [I(7), S('k_%s' % x)]) if j == 9 else Line(None, 'fcc', [ID(x)]) if j == 6 else
                   Line(None, 'lda', [I(1), ID(x)]) if j == 8 and o.symbols[x][1] in 'xyu' else Line(None, 'fqb', [ID(x)]) if j <= 5 or j == 7 else fcb(1))
    _, (o2, r2) = include_again(s, env, o, 'a.exp', ex, o.exports, [org(0x1000)] + use + [fcb(2)], 'exports file')
    return Info(True, ['%d+ entries' % (n // 100 * 100), verdict(o2)], a.source(), a.digest(), evals=2)


def text(s, env):
    """Programs of arbitrary text: what they export is written, read again and
    called from another program."""
    case, bad = textcases.make(s, s.pick(['export', 'call', None]), opts=s.p(20))
    textcases.fresh(env)
    if bad:
        raise Discard('malformed lines')
    # export what may be exported
    lines = case.files[MAIN]
    names = sorted({ln.label[1][0] for ln in lines if ln.label and ln.label[0] == 'id' and len(ln.label[1]) == 1 and isinstance(ln.label[1][0], str)})
    names = [n for n in names if textcases.NAME.fullmatch(n)]
    end = [i for i, ln in enumerate(lines) if ln.op and ln.op.lower() == 'end']
    at = end[0] if end else len(lines)
    t = case.texts[MAIN].split('\n')
    for n in s.sample(names, s.i(1, 6)):
        ln = Line(None, 'export', [ID(n)])
        ln.text = '\texport\t' + n
        lines.insert(at, ln)
        t.insert(at, ln.text)
    case.texts[MAIN] = '\n'.join(t)
    case.bin[MAIN] = case.texts[MAIN].encode('latin-1')
    o = case.model()
    if not o.ok or o.overlap or not all(textcases.NAME.fullmatch(n) for n in o.symbols):
        raise Discard('not accepted')
    if o.exec is not None and o.exec_addr is None or any(v is None or v[0] == 'i' and v[1] == -1 << 63 for v in o.symbols.values()):
        raise Discard('value')
    _, r = core.diff(case, env, fmt='C', symbols=True, exports=True, o=o)
    if r.rc:
        raise Discard('exported name not defined')
    ex = r.out['out.exp']
    check_exports(ex, o)
    rest = [Line(lab(n), 'equ', [I(s.i(0, 70))]) for n in sorted(set(textcases.NAMES) - set(o.exports))]
    rest += [Line(('n', n)) for n in range(4)] + [org(0x1000)]
    calls = 0
    for n in o.exports:
        if n in o.macros:
            calls += 1
            rest.append(Line(None, n, [s.pick([I(s.i(0, 300)), I(s.i(0, 9)), S(s.pick(['a', 'k1', 'x"y/', '&1'])), reg(s.pick('xdb')),
                                               ID('l1')]) for _ in range(s.i(1, 3))]))
        else:
            rest += uses(s, n, o.symbols[n], case.isa)
    rest += [Line(('n', n)) for n in range(4)] + [fcb(2)]
    include_again(s, env, o, 'a.exp', ex, o.exports, rest, 'exports file', case.isa)
    return Info(any(interesting(o.symbols.get(n)) for n in o.exports) or calls > 0, ['%d macros' % calls], case.source(), case.digest(), evals=2)


PARTS = [Part('text', text, 12000, 100000), Part('many', many, 900, 6000), Part('values', values, 15700, 120000), Part('library', library, 15700, 120000),
         Part('programs', programs, 7900, 60000), Part('bodies', bodies, 15700, 120000),
         Part('arguments', arguments(['export']), 3900, 15000), Part('faults', faults, 1570, 6000)]
ASSUME = ['symbols are spelt with the characters identifiers may contain',
          'a macro and a symbol of one name are not both exported']
