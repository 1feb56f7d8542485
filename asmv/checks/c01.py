"""C01: machine code of every instruction and operand form."""
from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a program counts when it contains at least one instruction with operands, or is rejected because of one '
        'operand; distinct by source text and options')


def some_arg(s, g, depth=0):
    """Any operand at all."""
    k = s.draw(15)
    if k <= 3:
        return reg(s.pick(['a', 'b', 'd', 'x', 'y', 'u', 's', 'pc', 'cc', 'dp', 'pcr'] +
                          (['e', 'f', 'w', 'q', 'v'] if g.isa == 6309 else [])))
    if k == 4:
        return reg(s.pick(['x', 'y', 'u', 's', 'd', 'a', 'pc'] + (['w'] if g.isa == 6309 else [])),
                   s.pick(['+', '++', '-x', '--x', 'x-']))
    if k <= 6:
        return I(s.pick([0, 1, 7, 8, 15, 16, 127, 128, 255, 256, 0x1234, 0xffff, -1, -16, -17, -128, -129]))
    if k == 7:
        return I(s.i(0, 0xffff))
    if k <= 10 and depth == 0:
        return ('attr', s.pick(['#', '#', '<', '>', '<<']), I(s.pick([0, 1, 5, 127, 128, 255, 0x1234, 0x8000])))
    if k == 11:
        return S(s.pick(['A', 'xy', 'abc', 'hello']))
    if k == 12:
        return ('f', s.pick(['1.5', '200.75', '4660.']))
    if k == 13 and depth == 0:
        return ('arr', [some_arg(s, g, 1) for _ in range(s.i(1, 2))])
    if k == 14:
        return EMPTY
    return ID(s.pick(['back', 'ahead']))


def valid(s, env):
    g = Gen(s)
    lines = [org(s.pick([0x1000, 0, 0x7ff0, 0xe000]))]
    d = g.plan('label')
    g.lines = lines
    g.define(d)
    d2 = g.plan('label')
    kinds = ['mem', 'immediate', 'inh', 'rel16', 'lea', 'stack', 'pair', 'imm', 'mem', 'immediate', 'inh', 'rel8']
    if g.isa == 6309:
        kinds += ['tfm', 'bit', 'immem', 'pair', 'bit', 'tfm', 'immem']
    tags = set()
    n = s.i(1, 10)
    for _ in range(n):
        k = s.pick(kinds)
        ln = g.instr(k)
        if k == 'rel8':
            ln.args = [('o', s.pick('+-'), ('pc',), I(s.i(0, 120)))]
        lines.append(ln)
        tags.add('%d %s' % (g.isa, k))
    g.define(d2)
    lines.append(fcb())
    case = Case({MAIN: lines}, isa=g.isa)
    o, r = check(env, s, case)
    return info(case, o, True, sorted(tags), evals=n)


def shapes(s, env):
    """Any mnemonic with any operands: accepted with the right code or rejected."""
    g = Gen(s)
    if s.p(40):
        # every kind of operand alike
        k = s.pick(['pair', 'stack', 'imm', 'mem', 'lea', 'inh', 'rel8', 'rel16'] +
                   (['tfm', 'tfm', 'bit', 'bit', 'immem', 'pair'] if g.isa == 6309 else []))
        m = s.pick(gen.mnemonics(g.isa, k))
    else:
        m = s.pick(sorted(isa_mod.table(g.isa)) if s.p(95) else sorted(isa_mod.I6309))
    d = isa_mod.ALL6309[m]
    n = {'inh': s.w((3, 1), (1, 2)), 'pair': s.w((6, 2), (1, 1), (1, 3)), 'tfm': s.w((6, 2), (1, 1), (1, 3)),
         'bit': s.w((6, 4), (1, 3), (1, 5)), 'stack': s.i(1, 4), 'immem': s.w((5, 2), (3, 3), (1, 1))}.get(
        d['kind'], s.w((6, 1), (4, 2), (1, 3)))
    args = [some_arg(s, g) for _ in range(n)]
    if d['kind'] == 'immem' and s.p(60):
        args[0] = ('attr', '#', I(s.i(0, 255)))
    if d['kind'] == 'bit':
        # mostly one thing wrong at a time
        good = [reg(s.pick(['cc', 'a', 'b'])), I(s.i(0, 7)), I(s.i(0, 7)), I(s.i(0, 255))]
        wrong = s.draw(4)
        for i in range(min(n, 4)):
            if i != wrong:
                args[i] = good[i]
        if wrong in (1, 2) and s.p(60) and n > wrong:
            args[wrong] = I(s.pick([0, 7, 8, -1, 9, 255]))
    if d['kind'] in ('pair', 'tfm') and s.p(70):
        for i in range(n):
            if args[i][0] != 'reg':
                args[i] = reg(s.pick(sorted(g.regs)), s.pick(['', '+', 'x-']) if d['kind'] == 'tfm' else '')
    if d['kind'] == 'tfm' and s.p(60):
        # a valid mode, with any registers
        mode = s.pick(sorted(isa_mod.TFM_MODE))
        args = [reg(s.pick(sorted(g.regs) if s.draw(1) else 'dxyus'), {'-': 'x-'}.get(x, x)) for x in mode]
    if d['kind'] == 'stack' and s.p(60):
        for i in range(n):
            args[i] = reg(s.pick(sorted(g.regs)))
    line = Line(None, m, args)
    if s.p(10) or args == [EMPTY]:
        line.args = None
    lines = [org(0x4000), Line(lab('back')), fcb(1)]
    for _ in range(s.draw(2)):
        lines.append(g.instr('inh'))
    lines.append(line)
    lines += [Line(lab('ahead')), fcb(2)]
    case = Case({MAIN: lines}, isa=g.isa)
    if case.isa == 6809 and not arg_ok_6809(line):
        raise Discard('register of the other processor')
    o, r = check(env, s, case, listing=False, symbols=False)
    if not o.ok and not o.errors[0][3].startswith('local'):
        at = '%s:%d:' % (MAIN, lines.index(line) + 1)
        if at.encode() not in r.stderr:
            raise Violation('error not reported for %r: %s' % (at, r.stderr[:300].decode('latin-1')))
    return info(case, o, True, ['kind ' + d['kind']])


def arg_ok_6809(line):
    return True


def only6309(s, env):
    """What only the 6309 has is rejected for the 6809, and accepted for the 6309."""
    g = Gen(s, isa=6309)
    for _ in range(60):
        k = s.draw(3)
        if k == 0:
            m = s.pick(sorted(set(isa_mod.ALL6309) - set(isa_mod.I6809)))
            kind = isa_mod.ALL6309[m]['kind']
            ln = g.instr(kind if kind in ('inh', 'tfm', 'bit', 'immem', 'pair', 'imm') else 'mem')
            if isa_mod.ALL6309[ln.op]['kind'] == kind and kind != 'inh':
                ln.op = m
            elif kind == 'inh':
                ln.op, ln.args = m, None
            break
        if k == 1:
            r = s.pick(['e', 'f', 'w', 'v'])
            other = s.pick([x for x in ['a', 'b', 'd', 'x', 'y', 'e', 'f', 'w', 'v']
                            if isa_mod.PAIR_SIZE[x] == isa_mod.PAIR_SIZE[r]])
            a = [reg(r), reg(other)]
            if s.draw(1):
                a.reverse()
            ln = Line(None, s.pick(['tfr', 'exg']), a)
            break
        if k == 2:
            a = [reg(s.pick(['e', 'f', 'w'])), reg(s.pick(['x', 'y', 'u', 's']))]
            ln = Line(None, s.pick(['lda', 'stx', 'leax', 'jmp']), [('arr', a)] if s.p(30) else a)
            break
        a = [EMPTY, reg('w', s.pick(['', '++', '--x']))]
        ln = Line(None, s.pick(['lda', 'stx', 'leax', 'jmp']), [('arr', a)] if s.p(30) else a)
        break
    lines = [org(0x2000), g.instr('inh') if False else Line(None, 'nop'), ln, fcb(3)]
    if ln.op in isa_mod.I6809 and isa_mod.I6809[ln.op]['kind'] == 'mem' and 'reg' not in repr(ln.args):
        raise Discard('exists on both')
    c6 = Case({MAIN: lines}, isa=6309)
    style = style_for(s, 6309)
    c6.render(style)
    o, r = check(env, s, c6)
    if not o.ok:
        raise Discard('not valid on the 6309')
    c8 = Case({MAIN: lines}, isa=6809)
    c8.texts = c6.texts
    extra = ['--6809'] if s.draw(1) else []
    r = run.asm(env, extra + ['-C', '-o', 'out', MAIN], c8.write(), ['out'])
    if r.rc == 0:
        raise Violation('6309 instruction accepted for the 6809: %s' % ln.text)
    return info(c6, o, True, ['kind %d' % k], evals=2)


def bulk_instr(kind):
    def make(s, g):
        k = kind if g.isa == 6309 or kind not in ('tfm', 'bit', 'immem') else 'mem'
        ln = g.instr(k)
        if k == 'rel8':
            ln.args = [('o', s.pick('+-'), ('pc',), I(s.i(0, 120)))]
        return ln
    return rotate(make)


often = bulk([bulk_instr(k) for k in ('mem', 'immediate', 'inh', 'rel16', 'lea', 'stack', 'pair', 'imm', 'rel8', 'tfm',
                                      'bit', 'immem', 'tfm', 'bit', 'immem')])

PARTS = [Part('text', textcases.part(focus='ins'), 8000, 100000), Part('often', often, 700, 6000), Part('valid', valid, 36000, 250000), Part('shapes', shapes, 48000, 300000),
         Part('only6309', only6309, 6000, 30000)]
ASSUME = ['reference encodings were transcribed from the 6809/6309 opcode maps by hand']
