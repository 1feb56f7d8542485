"""C17: whatever the input, the assembler ends cleanly."""
import os
import resource
import shutil
import subprocess
import tempfile
import time

from .. import build, engine, isa as isa_mod, run
from ..model import ALL_PSEUDO
from .common import *   # noqa: F401,F403

VARIANTS = ('plain', 'san', 'fuzz')
RULE = ('a case counts when the input got past the parser: it was accepted, or rejected for something other than '
        'lines that do not parse; distinct by source and options')

NUMS = ['0', '1', '2', '7', '-1', '8', '15', '16', '127', '128', '-128', '-129', '255', '256', '-256', '$7fff', '$8000',
        '-$8000', '$ffff', '$10000', '-$10000', '$7fffffff', '$80000000', '-$80000000', '$100000000',
        '$7fffffffffffffff', '$8000000000000000', '-$7fffffffffffffff', '$ffffffffffffffff', '99999999999999999999',
        '0.5', '1.', '.5', '-0.0', '1e3', '3.4e38', '1.5', '65535.9', "'a", "'''", '%1', '@17', '0x', '0b', '$']
STRS = ['""', '"a"', "'ab'", '/a b/', '"\\n\\\\"', '"\\1"', '"\\&"', '"' + 'x' * 40 + '"', '"a.s"', '"main.s"', '"nofile"',
        '"\x80\xff"', '"\\x41"', '"unterminated']
REGS = ['a', 'b', 'd', 'e', 'f', 'w', 'q', 'v', 'z', 'x', 'y', 'u', 's', 'pc', 'pcr', 'cc', 'dp', 'md', '0', ',x+', ',-y', '--s', 'u++', 'x+',
        '-x', 'w++', '--w', 'q+', 'pc+', 'X', 'PCR']
SYMS = ['l1', 'l2', 'k1', 'undefd', 'mac', 'mac2', 'l1.x', '_', 'CODE', '.exec', 'DEF', 'start', '1b', '1f', '0b', '!', '<', '>', '2B', '99f',
        '*', '\\1', '\\2', '\\9', '\\0', '\\{1}', '\\{12}', '\\', '&1', '&{0}', '\\{0}', '\\*', '\\&', 'l\\1', '\\1\\2', 'l{1}']
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '~', '!', '&&', '||', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '?', ':', '(', ')',
       '[', ']', ',', ',,', '#', '<', '<<', '>', '=', ';', '\t', ' ', '.']
DIRECTIVES = sorted(ALL_PSEUDO) + ['exec', 'bsz', 'zmb', 'rzb', 'includebin', 'include', 'macro', 'endm', 'export', 'section',
                                   'if', 'elsif', 'else', 'endif', 'mac', 'mac2', 'l1', '\\1']
_OPC = sorted(set(isa_mod.table(6309)))
INT64 = [2 ** 63 - 1, 2 ** 63, 2 ** 62, 2 ** 32, 2 ** 31, 2 ** 31 - 1]


def options(s, outs):
    """Random option list; output files are always within the scratch directory."""
    a = []
    a.append('-' + s.pick('BDCSH'))
    if s.draw(1):
        a.append('-3')
    if s.p(15):
        a.append(s.pick(['-q', '-v']))
    if s.p(30):
        a += ['-l', 'out.lst']
        outs.append('out.lst')
    if s.p(30):
        a += ['-s', 'out.sym']
        outs.append('out.sym')
    if s.p(30):
        a += ['-E', 'out.exp']
        outs.append('out.exp')
    if s.p(90):
        a += ['-o', 'out.bin']
        outs.append('out.bin')
    if s.p(15):
        a += ['-e', s.pick(['0', '$1234', 'start', 'l1', '-1', 'undefd', '99999', '', '0x', 'k1'])]
    if s.p(15):
        a += ['-P', s.pick(['2', '3', '12', '40', '255'])]
    if s.p(15):
        a += ['--setdp', s.pick(['0', '-1', '$20', '255', '256', '-300'])]
    if s.p(15):
        a += ['-d', s.pick(['DEF', 'DEF=5', 'l1=3', 'DEF=-1', 'k1=$ffff', 'mac=2', 'DEF=$7fffffffffffffff'])]
    return a


def judge(env, s, files, args, outs, what=None, cpu=10, variant='san', tags=(), quiet=True):
    r = run.asm(env, args, files, outs=outs, variant=variant, cpu=cpu)
    msgs = r.messages()
    if r.stdout and quiet:
        raise Violation('standard output: %r' % r.stdout[:200])
    # a parse error leaves a message without text; anything else got further
    through = r.rc == 0 or any(not m.rstrip().endswith(':') and 'parse' not in m for m in msgs)
    if r.rc == 0:
        cls = 'accepted' + (' with warnings' if msgs else '')
    else:
        cls = 'rejected: ' + ('other' if through else 'parse')
    src = '\n----\n'.join('%s:\n%s' % (k, v if isinstance(v, str) else v.decode('latin-1')) for k, v in files.items())
    return engine.Info(through, [cls] + list(tags), '%s\n%s' % (' '.join(map(str, args)), src),
                       repr((sorted(files.items()), args)))


# -- token level -----------------------------------------------------------------

def num(s):
    k = s.draw(5)
    if k <= 2:
        return s.pick(NUMS)
    if k == 3:
        return str(s.i(-70000, 70000))
    if k == 4:
        return '$%x' % (s.pick(INT64) + s.i(-2, 2))
    return '%d' % -(s.pick(INT64) + s.i(-2, 2))


def token(s):
    k = s.draw(9)
    if k <= 2:
        return num(s)
    if k == 3:
        return s.pick(STRS)
    if k == 4:
        return s.pick(REGS)
    if k <= 6:
        return s.pick(SYMS)
    return s.pick(OPS)


def value(s, depth=2):
    """Well formed operand of any type."""
    k = s.draw(11)
    if k <= 2 or depth <= 0:
        return num(s)
    if k == 3:
        return s.pick(STRS[:-1])
    if k == 4:
        return s.pick(REGS)
    if k <= 6:
        return s.pick(SYMS[:20])
    if k == 7:
        return '%s%s' % (s.pick(['-', '+', '~', '!', '- -', '~-']), value(s, depth - 1))
    if k <= 9:
        return '%s%s%s' % (value(s, depth - 1), s.pick(['+', '-', '*', ' / ', '%', '&', '|', '^', '&&', '||', '<<', '>>', '<',
                                                        '>', '<=', '>=', '==', '!=']), value(s, depth - 1))
    if k == 10:
        return '(%s)' % value(s, depth - 1)
    return '%s?%s:%s' % (value(s, depth - 1), value(s, depth - 1), value(s, depth - 1))


def operand(s):
    k = s.draw(11)
    if k <= 4:
        return value(s)
    if k == 5:
        return s.pick(['#', '<', '>', '<<']) + value(s)
    if k == 6:
        return '%s,%s' % (value(s, 1), s.pick(REGS))
    if k == 7:
        return '[%s,%s]' % (value(s, 1), s.pick(REGS))
    if k == 8:
        return '[%s]' % value(s)
    if k == 9:
        return ','.join(s.pick(REGS) for _ in range(s.i(1, 4)))
    if k == 10:
        return ''
    return '%s%s,%s' % (s.pick(['#', '<', '>', '<<']), value(s, 1), s.pick(REGS))


def typed_line(s):
    lab = s.w((8, ''), (3, s.pick(['l1', 'l2', 'k1', 'start', 'mac', '1', '2', '0', '!', 'l\\1'])), (1, token(s)))
    op = s.w((5, s.pick(_OPC)), (5, s.pick(DIRECTIVES)))
    if s.p(20):
        op = op.upper()
    args = ','.join(operand(s) for _ in range(s.w((2, 0), (5, 1), (4, 2), (2, 3), (1, 5))))
    return '%s %s %s' % (lab, op, args)


FRAME = ['l1 nop', 'l2 equ $1234', 'k1 set 5', 'start', '1', '2', ' org $1000', ' section "DATA"', ' code', ' setdp $20',
         ' if 0', ' if 1', ' else', ' endif', 'mac macro', ' fcb \\1', ' lda \\2', ' endm', ' mac 1,2', ' include "a.s"',
         ' includebin "b.s"', ' export l1,mac,k1', ' end start', ' fdb 1b,1f', ' put $2000', 'k1 set k1+1', 'l2 equ l1',
         'l3 equ l4', 'l4 equ l3', ' rmb l2', ' align 16', ' macro', ' endm a', ' endm 1,2', 'm2 macro']


def typed(s, env):
    """Every directive and instruction with operands of every type."""
    lines = []
    for _ in range(s.length(1, 14, 4)):
        if s.p(35):
            lines.append(s.pick(FRAME))
        lines.append(typed_line(s))
    outs = []
    return judge(env, s, {'main.s': '\n'.join(lines) + '\n', 'a.s': ' fcb 1\n' + typed_line(s) + '\n', 'b.s': 'binary'},
                 options(s, outs) + ['main.s'], outs)


def soup_line(s):
    k = s.draw(9)
    if k == 0:
        return s.pick(FRAME)
    lab = s.w((5, ''), (2, s.pick(SYMS)), (1, token(s)))
    op = s.w((4, s.pick(DIRECTIVES)), (3, s.pick(_OPC)), (1, token(s)))
    sep = s.pick([' ', '\t', '  ', ''])
    return lab + sep + op + sep + s.pick(['', ' ']).join(token(s) for _ in range(s.i(0, 6)))


def soup(s, env):
    """Sequences of tokens."""
    files = {}
    for n in ('main.s', 'a.s', 'b.s')[:s.i(1, 3)]:
        files[n] = s.pick(['\n', '\r\n', '\n']).join(soup_line(s) for _ in range(s.length(1, 12, 4))) + s.pick(['\n', '', ' '])
    outs = []
    return judge(env, s, files, options(s, outs) + s.pick([['main.s'], sorted(files)]), outs)


def sizes(s, env):
    """Runs of data and instructions of every length, across any internal boundary."""
    files = {}
    units = [' nop', ' fcb 1', ' fdb 1', ' fqb 1', ' lda #1', ' ldx #1', ' jsr $1234', ' ldy >l1', ' lds [$1234]',
             ' leax 300,pcr', ' ldq #1', ' aim #1,>$1234', ' oim #1,[l1]', ' fcc "abc"', ' fcb 1,2,3,4,5', ' fqb 1,2,3', ' lbra l1',
             ' cmpy 300,x', ' fcn "%s"' % ('y' * s.i(1, 300)), ' fcs "xy"', ' fdb 1,2,3', ' rmb 1', ' rzb 3', ' fill 1,5',
             ' includebin "b.s"', ' align 2', ' section "s%d"' % s.i(0, 3), ' put %d' % s.i(0, 65535), ' org %d' % s.i(0, 65535)]
    few = s.sample(units[:20] if s.p(70) else units, s.i(1, 6))
    lines = ['l1'] + [' nop'] * s.i(0, 8)
    while len(lines) < s.pick([40, 150, 300]):
        lines += [s.pick(few)] * s.w((3, 1), (2, s.i(2, 6)), (2, s.i(20, 140)))
    files = {'main.s': '\n'.join(lines) + '\n', 'b.s': 'z' * s.w((2, s.i(0, 9)), (3, s.i(100, 600)))}
    outs = []
    return judge(env, s, files, ['-3'] + options(s, outs) + ['main.s'], outs)


VARS = ['\\0', '\\1', '\\1', '\\2', '\\3', '\\9', '&{0}', '&{1}', '&{2}', '\\{0}', '\\{10}', '\\{2147483648}', '\\{4294967295}',
        '&{99999999999999999999}']


def macros(s, env):
    """Macro bodies that use arguments there are and there are not, in every place."""
    names = s.sample(['m1', 'm2', 'm3', 'mac'], s.i(1, 3))

    def call():
        args = [operand(s) if s.draw(1) else s.pick(['', '1', '"a"', 'x', 'x+', '[1]', '1.5', 'later', 'k1', 'undefd', '-,y', '*', '1f'])
                for _ in range(s.w((2, 0), (3, 1), (3, 2), (1, 10)))]
        return ' %s %s' % (s.pick(names), ','.join(args))

    def body_line(d):
        v = lambda: s.pick(VARS)    # noqa: E731
        k = s.draw(9)
        if k == 0:
            return ' %s %s' % (s.pick(DIRECTIVES), v())
        if k == 1:
            return ' %s %s' % (s.pick(_OPC), s.pick(['%s', '#%s', '[%s]', '%s,x', '<%s', '[,%s]', 'a,%s', '5,%s', '%s,$20', '(%s)+1', '~%s']) % v())
        if k == 2:
            return 'l%s%s %s' % (v(), v() if s.draw(1) else '', s.pick(['', 'nop', 'equ 1', 'set %s' % v(), 'macro', 'rmb 1']))
        if k == 3:
            return ' fcc "%s%s%s"' % (v(), s.pick(['', 'x', '/']), v())
        if k == 4:
            return ' if %s%s' % (v(), s.pick(['', '==1', '+1', '-1', '?0:1']))
        if k == 5:
            return s.pick([' endif', ' else', ' endm', ' elsif %s' % v(), ' endm %s' % v(), ' end %s' % v()])
        if k == 6:
            return call().replace('1', v())
        if k == 7:
            return ' %s %s,%s' % (s.pick(['fcb', 'fdb', 'tfr', 'pshs', 'lda', 'export', 'fill', 'm1']), v(), v())
        if k == 8:
            return ' %s' % v()
        return typed_line(s)

    lines = ['k1 set 5'] * s.draw(1)
    for n in names:
        if s.p(20):
            lines.append(call())
        lines.append('%s macro' % n)
        calls = 0
        for _ in range(s.length(0, 6, 3)):
            ln = body_line(0)
            # at most two invocations each: the work described stays small
            calls += any(w.lower() in names for w in ln.split()[:2])
            lines.append(ln if calls <= 2 else ' nop')
        lines.append(' endm')
        lines += [call() for _ in range(s.i(0, 2))]
    lines.append('later %s' % s.pick(['equ 1', 'equ x', 'nop', 'equ "ab"']))
    outs = []
    return judge(env, s, {'main.s': '\n'.join(lines) + '\n', 'a.s': body_line(0) + '\n', 'b.s': 'binary'},
                 options(s, outs) + ['main.s'], outs)


# -- mutated programs ------------------------------------------------------------

def rebytes(s, text):
    """One random edit."""
    lines = text.split('\n')
    k = s.draw(13)
    i = s.draw(max(0, len(lines) - 1))
    j = s.draw(max(0, len(lines) - 1))
    if k == 0:
        del lines[i]
    elif k == 1:
        lines.insert(i, lines[j])
    elif k == 2:
        lines[i], lines[j] = lines[j], lines[i]
    elif k == 3:
        lines.insert(i, s.pick(FRAME))
    elif k == 4:
        lines.insert(i, typed_line(s))
    elif k == 5:
        lines[i] = lines[i] + s.pick(OPS) + token(s)
    elif k in (6, 7, 8):
        # replace a word
        words = lines[i].split(' ')
        w = s.draw(len(words) - 1)
        words[w] = s.w((3, token(s)), (1, s.pick(DIRECTIVES)), (1, s.pick(_OPC)), (1, ''))
        lines[i] = ' '.join(words)
    elif k == 9:
        # drop or repeat a stretch of characters
        ln = lines[i]
        a = s.draw(len(ln))
        b = min(len(ln), a + s.i(0, 8))
        lines[i] = ln[:a] + s.pick(['', ln[a:b] * 2, ln[a:b] * s.i(2, 30)]) + ln[b:]
    elif k == 10:
        ln = lines[i]
        a = s.draw(len(ln))
        lines[i] = ln[:a] + s.pick(['\0', '\r', '\x0b', '\x1a', '\x7f', '\x80', '\xff', '"', "'", '\\', '(', ')', '[', ']',
                                    '{', '}', '\t', ';', '*', ',', chr(s.i(0, 255))]) + ln[a:]
    elif k == 11:
        # grow a number
        ln = lines[i]
        for a, c in enumerate(ln):
            if c.isdigit():
                lines[i] = ln[:a] + num(s) + ln[a + 1:]
                break
    elif k == 12:
        text = '\n'.join(lines)
        return text[:s.draw(len(text))]
    else:
        return s.pick(['\r', '\r\n', '\n\n', '\n\0']).join(lines)
    return '\n'.join(lines)


def mutated_files(s, most):
    g = Gen(s, feat=ALL)
    lines = g.program(s.length(4, 16, 8), s.i(1, 6))
    case = Case({MAIN: lines, **g.files}, isa=g.isa)
    case.render(style_for(s, g.isa))
    files = dict(case.texts)
    names = sorted(files)
    for _ in range(s.length(1, most, 3)):
        n = s.pick(names)
        files[n] = rebytes(s, files[n])
    return case, files


def mutate(s, env):
    """Valid programs with a few random edits."""
    case, files = mutated_files(s, 10)
    outs = []
    args = options(s, outs)
    if case.isa == 6309 and '-3' not in args:
        args.append('-3')
    return judge(env, s, files, args + [MAIN], outs)


def noise(s, env):
    """Bytes."""
    k = s.draw(2)
    n = s.length(1, 300, 60)
    if k == 0:
        data = bytes(s.draw(255) for _ in range(n))
    elif k == 1:
        data = bytes(ord(s.pick(' \t\n"\'\\;*#<>[](){}+-,$%@!&|^~?:=.abdxyus019\x00\xff\r')) for _ in range(n))
    else:
        w = [x.encode('latin-1') for x in DIRECTIVES[:40] + OPS + REGS + STRS]
        data = b''.join(s.pick(w) + s.pick([b' ', b'\n', b'', b'\t']) for _ in range(n // 2))
    outs = []
    return judge(env, s, {'main.s': data, 'a.s': b' fcb 1\n'}, options(s, outs) + ['main.s'], outs)


# -- options ---------------------------------------------------------------------

OPT = ['-B', '-D', '-C', '-S', '-H', '-8', '-9', '-3', '-q', '-v', '--bin', '--dragondos', '--coco', '--srec', '--hex', '--6809',
       '--6309', '--quiet', '--verbose', '--help', '--version', '-h', '-V', '-e', '--exec', '-d', '--define', '--setdp', '-P',
       '--max-passes', '-o', '--output', '-l', '--listing', '-E', '--exports', '-s', '--symbols', '--', '-', '-x', '--nosuch',
       '--s', '--o', '--e', '--ex', '']
VALS = ['0', '1', '-1', 'A', 'A=1', 'A=', '=', '=1', 'A=B', 'A=$', 'A=-', 'A=--1', 'A=0x', 'A=1=2', '$', '@', '%', '-', '--', '0b', '0x',
        '$ffffffffffffffffff', '-9223372036854775808', '9223372036854775807', '9223372036854775808', 'l1', 'undefd', '', ' ',
        '%s%n%d', 'A%n=1', 'A=%n', '2', '255', '256', '3', 'out1', 'out2', 'main.s', 'nodir/x', 'x' * 5000, '\xff', '"', '\\1']


def opts(s, env):
    """Option vectors."""
    args = []
    for _ in range(s.length(0, 8, 3)):
        o = s.pick(OPT)
        k = s.draw(4)
        if k == 0:
            args.append(o)
        elif k <= 2:
            args += [o, s.pick(VALS)]
        elif o.startswith('--'):
            args.append(o + '=' + s.pick(VALS))
        else:
            args.append(o + s.pick(VALS))
    for _ in range(s.w((1, 0), (8, 1), (2, 2))):
        args.insert(s.draw(len(args)), s.w((8, 'main.s'), (1, 'nofile.s'), (1, '.'), (1, 'a.s')))
    # outputs stay in the (scratch) working directory: no value is absolute
    assert not any(x.startswith('/') or '..' in x for x in args)
    # the source may be named as an output: write it anew every time
    text = ' org $1000\nl1 fdb A%s\n export l1\n end l1\n' % s.pick(['', '+1', '*2'])
    files = {'main.s': text.replace('A', 'l1') if s.draw(1) else text, 'a.s': ' fcb 2\n'}
    for n in os.listdir('.'):
        if n not in ('main.s', 'a.s', '.stdout', '.stderr'):
            shutil.rmtree(n) if os.path.isdir(n) and not os.path.islink(n) else os.unlink(n)
    return judge(env, s, files, args, [], quiet=False)


# -- resources -------------------------------------------------------------------

def size_for(s, top):
    return s.w((2, s.i(1, 200)), (2, s.i(200, 5000)), (3, s.i(max(1, top // 2), top)))


def scale(s, env):
    """Long and deep inputs of up to 64KB: time and memory stay in proportion."""
    fam = s.draw(33)
    B = 60000
    pre = post = ''
    n = None
    if fam == 0:
        n = size_for(s, B // 2)
        t = ' fcb %s1%s\n' % ('(' * n, ')' * n)
    elif fam == 1:
        n = size_for(s, B)
        t = ' fcb %s1\n' % (s.pick('-~!') * n)
    elif fam == 2:
        n = size_for(s, B // 4)
        t = ' fcb 1' + (s.pick(['+1', '-1', '*1', '&1', '&&1', '||1', '==1', '<<1', '%3']) * n) + '\n'
    elif fam == 3:
        n = size_for(s, B // 4)
        t = ' fcb ' + s.pick(['1?', '1?2:', '0?1:']) * n + '1' + ':1' * (n if s.draw(1) else 0) + '\n'
    elif fam == 4:
        n = size_for(s, B)
        t = ' lda %sx%s\n' % ('[' * n, ']' * s.pick([0, n]))
    elif fam == 5:
        n = size_for(s, B // 3)
        t = ' fcb ' + ','.join(['1'] * n) + '\n'
    elif fam == 6:
        n = size_for(s, B)
        t = s.pick(['', ' ', ' fcb ', ' fcb "', ' ; ', '*', ' nop ']) + s.pick('axX1 \t\\"') * n + s.pick(['', '\n', '"\n'])
    elif fam == 7:
        n = size_for(s, B // 12)
        t = ''.join('s%d equ s%d\n' % (k, k + 1) for k in range(n)) + s.pick(['', 's%d equ 1\n' % n])
    elif fam == 8:
        n = size_for(s, B // 14)
        t = ''.join('s%d equ s%d+1\n' % (k, k - 1) for k in range(n, 0, -1)) + s.pick(['', 's0 equ 1\n'])
    elif fam == 9:
        n = size_for(s, B // 6)
        t = ' if 1\n' * n + s.pick([' endif\n' * 1, ' endif\n' * (n // 2), ''])
    elif fam == 10:
        n = size_for(s, B // 6)
        t = ' if %d\n' % s.draw(1) + s.pick([' elsif 0\n', ' elsif 1\n', ' else\n']) * n + ' endif\n'
    elif fam == 11:
        k = s.i(1, 30)
        t = 'm macro\n%s endm\n m\n' % (' m %s\n' % s.pick(['', '\\1', '1,2']) * k)
    elif fam == 12:
        k = s.i(1, 200)
        t = ' fcb 1\n' * s.draw(2) + ' include "main.s"\n' * k
    elif fam == 13:
        n = size_for(s, 40)
        t = ''.join('m%d macro\n m%d\n endm\n' % (k, k + 1) for k in range(n)) + ' m0\n'
    elif fam == 14:
        # mutual recursion between macro and file
        t = 'm macro\n include "a.s"\n m\n endm\n' + ' m\n' * s.i(1, 50)
    elif fam == 15:
        d = s.pick(['rmb', 'rzb', 'align', 'org', 'put', 'fill', 'bsz'])
        t = ' %s %s\n' % (d, (s.pick(['1,', '']) if d == 'fill' else '') + num(s)) * s.i(1, 300 if d in ('rmb', 'org', 'put') else 20)
    elif fam == 16:
        n = size_for(s, B // 16)
        t = ''.join(' org %d\n fcb 1\n' % (k * 7 % 65536) for k in range(n))
        n = 'org'
    elif fam == 17:
        n = size_for(s, B // 14)
        t = ''.join(' section "s%d"\n' % (k % max(1, n // s.pick([1, 3]))) for k in range(min(n, 2500)))
    elif fam == 18:
        n = size_for(s, B // 14)
        t = '1\n' * (n // 2) + ' bra 1b\n' * 10 + '1\n' * (n // 2) + ' bra 1f\n'
    elif fam == 19:
        n = size_for(s, B // 20)
        t = ''.join('m%d macro\n endm\n' % k for k in range(n))
    elif fam == 20:
        n = size_for(s, B)
        t = 'm macro\n fcb \\1\n endm\n m %s\n' % s.pick([','.join(['1'] * (n // 2)), '"' + 'x' * n + '"', '(' * (n // 2) + '1' + ')' * (n // 2)])
    elif fam == 21:
        n = size_for(s, B // 3)
        t = 'm macro\nl%s fcb "%s"\n endm\n m 1,2\n' % ('\\1' * min(n, 9000), '\\2' * min(n, 9000))
    elif fam == 22:
        n = size_for(s, B)
        t = '%s equ 1\n fcb %s\n' % ('a' * (n // 2), 'a' * (n // 2))
    elif fam == 23:
        n = size_for(s, B // 10)
        t = 'k set 0\n' + 'k set k+1\n' * n
    elif fam == 24:
        t = 'k set k+1\n' * s.i(1, 50) + s.pick([' rmb k\n', ' fcb k\n', 'l rmb l\n', 'l equ l+1\n', ' org l\nl\n', ' rmb l\nl nop\n',
                                                 ' rmb 5-l\nl nop\n', ' lda l+l\n rmb l-3\nl\n'])
    elif fam == 25:
        n = size_for(s, B)
        t = s.pick(['\n', '\r', '\r\n', ' \n', ';\n', '*\n', ' nop\n', 'x\n', '1\n', '\0\n', '\x1a']) * (n // 4)
    elif fam == 26:
        n = size_for(s, B // 8)
        t = ' export %s\n' % ','.join('s%d' % k for k in range(n)) + ''.join('s%d equ %d\n' % (k, k) for k in range(min(n, 2000)))
    elif fam == 27:
        n = size_for(s, B // 4)
        t = 'm macro\n fcb %s\n endm\n export m\n' % ('1' + '+1' * n)
    elif fam == 28:
        n = size_for(s, B // 12)
        t = 'm macro\n' * n + ' endm\n' * s.pick([0, 1, n // 2, n, n + 1]) + ' m\n'
    elif fam == 29:
        t = ' includebin %s\n' % s.pick(['"main.s"', '"."', '"nofile"', '"big"', 'k', '"\\1"', '".stdout"']) * s.i(1, 5)
    elif fam == 30:
        k = s.i(1, 8)
        t = 'm macro\n' + ' if \\1>0\n' + ' m \\1-1\n' * k + ' endif\n endm\n m %d\n' % s.i(1, {1: 300, 2: 9, 3: 6}.get(k, 4))
    elif fam == 31:
        n = size_for(s, B // 5)
        t = 'm macro\n fcb 1,2,3\n endm\n' + ' m\n' * (n // 2) + ' fcb 1\n'
    elif fam == 32:
        n = size_for(s, B // 2)
        t = ' %s\n' % s.pick(['pshs ' + ','.join(['a'] * n), 'tfr ' + ','.join(['a'] * n), 'lda ' + ','.join(['a'] * n),
                              'lda %sx%s' % ('-' * n, '+' * (n // 2)), 'ldmd #' + '~' * n + '1', 'lda ,x' + '+' * n])
    else:
        n = size_for(s, B)
        t = ' fcc "%s"\n fcs /%s/\n' % ('\\' * (n // 2), 'a' * (n // 2))
    outs = []
    args = options(s, outs) + ['main.s']
    if '-P' in args:
        args[args.index('-P') + 1] = '3'
    files = {'main.s': t[:65000], 'a.s': ' fcb 1\n', 'big': 'b' * 70000}
    variant = s.pick(['san', 'plain'])
    info = judge(env, s, files, args, outs, variant=variant, cpu=20, tags=['family %d' % fam])
    info.sample = info.sample[:400]
    return info


# -- coverage guided -------------------------------------------------------------

FUZZ = {'quick': dict(runs=16000, seeds=500, seconds=200), 'thorough': dict(runs=1500000, seeds=4000, seconds=2200)}
WORKERS = 8


def fuzz_input(s):
    """One input of fuzz/target.c, built from the same generators."""
    head = bytes([s.draw(255), s.draw(255)])
    k = s.draw(5)
    if k <= 2:
        _, files = mutated_files(s, s.pick([1, 1, 4]))
        texts = [files[MAIN]] + [v for n, v in sorted(files.items()) if n != MAIN]
        for i, n in enumerate(x for x in sorted(files) if x != MAIN):
            texts = [t.replace('"%s"' % n, '"%s.s"' % 'ab'[i % 2]) for t in texts]
    elif k == 3:
        texts = ['\n'.join(typed_line(s) if s.draw(2) else s.pick(FRAME) for _ in range(s.i(1, 8))) + '\n',
                 typed_line(s) + '\n']
    else:
        texts = ['\n'.join(soup_line(s) for _ in range(s.i(1, 6))) + '\n']
    return head + b'\xff'.join(t.encode('latin-1') for t in texts[:3])


def fuzz_args(data):
    """The command line fuzz/target.c makes of an input."""
    a, b = data[0], data[1]
    args = [['-B', '-D', '-C', '-S', '-H', '-B', '-C', '-S'][a & 7]]
    if a & 8:
        args.append('--6309')
    if a & 16:
        args.append('-q')
    if a & 32:
        args.append('-v')
    if a & 64:
        args += ['--setdp', '32']
    if a & 128:
        args += ['-d', 'DEF=3']
    if b & 1:
        args += ['-l', 'out.lst']
    if b & 2:
        args += ['-s', 'out.sym']
    if b & 4:
        args += ['-E', 'out.exp']
    if not b & 8:
        args += ['-o', 'out']
    if b & 16:
        args += ['-e', 'start']
    if b & 32:
        args += ['-P', '3']
    args.append('main.s')
    if b & 64:
        args.append('a.s')
    texts = data[2:].split(b'\xff', 2)
    files = {n: (texts[i] if i < len(texts) else b'') for i, n in enumerate(['main.s', 'a.s', 'b.s'])}
    return args, files


def confirm(env, data):
    """Message if the real program misbehaves on a find of the fuzzer."""
    args, files = fuzz_args(data)
    for variant in ('san', 'plain'):
        try:
            run.asm(env, args, files, variant=variant, cpu=20)
        except engine.Violation as v:
            if 'terminate' in v.msg and any(w in data.lower() for w in (b'macro', b'include')):
                continue        # the source may itself describe that much work
            return v.msg
    return None


def minimise(env, data, msg, seconds=60):
    end = time.time() + seconds
    kind = msg[:20]
    best = data
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() < end:
        i = 2
        while i < len(best) and time.time() < end:
            cand = best[:i] + best[i + size:]
            m = confirm(env, cand)
            if m and m[:20] == kind:
                best = cand
            else:
                i += size
        size //= 2
    return best


def dictionary(path):
    words = sorted(set(DIRECTIVES + _OPC[:400] + OPS + REGS + STRS[:-1] + NUMS + SYMS + FRAME))
    with open(path, 'w') as f:
        for w in words:
            b = w.encode('latin-1')
            if 0 < len(b) <= 48:
                f.write('"%s"\n' % ''.join('\\x%02x' % c for c in b))


def campaign(prop, tier, seed, exes, deadline):
    cfg = FUZZ[tier]
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    top = tempfile.mkdtemp(prefix='asmv-fuzz-', dir=base)
    try:
        dictionary(os.path.join(top, 'dict'))
        procs = []
        for w in range(WORKERS):
            for d in ('w', 'c', 'a', 'seeds'):
                os.makedirs(os.path.join(top, '%s%d' % (d, w)))
            for k in range(cfg['seeds'] // WORKERS):
                src = engine.Src(engine.rng_for(seed, prop, 'fuzz%d' % w, k))
                with open(os.path.join(top, 'seeds%d' % w, '%04d' % k), 'wb') as f:
                    f.write(fuzz_input(src))
            log = open(os.path.join(top, 'log%d' % w), 'wb')
            envv = dict(run.BASE_ENV, ASMV_FUZZ_DIR=os.path.join(top, 'w%d' % w),
                        ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=4:'
                                     'malloc_context_size=0:symbolize=0', UBSAN_OPTIONS='symbolize=0')
            cmd = [exes['fuzz'], '-seed=%d' % (seed * 100 + w + 1), '-runs=%d' % cfg['runs'], '-max_len=1500',
                   '-timeout=10', '-rss_limit_mb=0', '-max_total_time=%d' % cfg['seconds'], '-print_final_stats=1',
                   '-verbosity=1', '-dict=' + os.path.join(top, 'dict'),
                   '-artifact_prefix=' + os.path.join(top, 'a%d/' % w),
                   os.path.join(top, 'c%d' % w), os.path.join(top, 'seeds%d' % w)]
            procs.append((subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=envv), log, cmd))
        end = min(deadline, time.time() + cfg['seconds'] + 60)
        total = execs = 0
        unconfirmed = []
        cov = []
        found = None
        for p, log, cmd in procs:
            try:
                p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
        env = engine.Env(exes, tier)
        try:
            for w in range(WORKERS):
                with open(os.path.join(top, 'log%d' % w), 'rb') as f:
                    text = f.read().decode('latin-1')
                n = 0
                for line in text.split('\n'):
                    if line.startswith('stat::number_of_executed_units:'):
                        n = int(line.split(':')[-1])
                    elif line.startswith('#') and 'cov: ' in line:
                        n = max(n, int(line[1:].split()[0]))
                        c = int(line.split('cov: ')[1].split()[0])
                if n == 0:
                    return dict(error='fuzzer did not run: ' + text[-1500:])
                execs += n
                cov.append(c)
                total += len(os.listdir(os.path.join(top, 'c%d' % w)))
                ad = os.path.join(top, 'a%d' % w)
                for a in sorted(os.listdir(ad)):
                    with open(os.path.join(ad, a), 'rb') as f:
                        data = f.read()
                    if len(data) < 2:
                        continue
                    msg = confirm(env, data)
                    if not msg:
                        unconfirmed.append(a)
                    elif not found:
                        found = (minimise(env, data, msg), msg)
        finally:
            env.close()
        res = dict(evaluations=execs, coverage=dict(
            fuzzer=dict(executions=execs, edges=cov, corpus=total, workers=WORKERS, runs_each=cfg['runs'],
                        unconfirmed=unconfirmed)))
        if found:
            data, msg = found
            args, files = fuzz_args(data)
            os.makedirs(os.path.join(engine.VERIF, 'replays'), exist_ok=True)
            import hashlib
            import json
            path = os.path.join(engine.VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha256(data).hexdigest()[:12]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, part='finds', choices=list(data), message=msg, args=args,
                               files={k: v.decode('latin-1') for k, v in files.items()}), f, indent=1)
            res['violation'] = path
            res['message'] = '%s fuzzer: %s\n  $ asm6809 %s\n%s' % (prop, msg, ' '.join(args), files['main.s'].decode('latin-1'))
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


def finds(s, env):
    """Replays a find of the fuzzer (its choices are the input's bytes)."""
    if s.replay is None:
        return engine.Info(False)
    data = bytes(s.draw(255) for _ in s.replay)
    if len(data) < 2:
        raise Discard('empty')
    msg = confirm(env, data)
    if msg:
        raise Violation(msg)
    return engine.Info(True)


PARTS = [Part('typed', typed, 4000, 100000), Part('macros', macros, 2500, 60000), Part('sizes', sizes, 700, 15000), Part('soup', soup, 2000, 50000), Part('mutate', mutate, 3000, 80000),
         Part('noise', noise, 1000, 20000), Part('opts', opts, 1500, 20000), Part('scale', scale, 400, 5000),
         Part('finds', finds, 1, 1)]
EXTRA = campaign
ASSUME = ['a source whose macros or inclusions describe an exponential amount of work within the nesting limit is not '
          'expected to finish quickly',
          'resource bounds are judged on sources of up to 64KB: 20 s of CPU time, 3 GB of address space']
