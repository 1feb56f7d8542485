"""C12: INCLUDE and multiple source files."""
import os
import re

from .. import textcases
from .common import *   # noqa: F401,F403

RULE = ('a case counts when the program is spread over at least two files (errors: when a file is missing, unreadable '
        'or nested too deeply); distinct by source')

NAMES = ['p%d.s', 'part %d', 'sub/p%d.inc', 'P%d.ASM', 'x.y.%d', "q'%d", 'a&%d', 'b\\%d']
ALIKE = ['inc', 'INC', 'Inc', 'iNC', 'inc.s', 'in', 'inc ', 'sub/inc', 'sub2/inc', 'SUB/inc', 'sub/INC', 'incl', 'inc.S']
OPEN = {'if': 'i', 'macro': 'm'}


def copy(ls):
    return [Line(l.label, l.op, l.args, l.comment) for l in ls]


def ranges(lines):
    """For each start line the ends of balanced ranges, and macro depth."""
    out = []
    mac = 0
    for i in range(len(lines)):
        if (lines[i].op or '').lower() == 'endm':
            mac -= 1
        ends = []
        di = dm = 0
        for j in range(i, len(lines)):
            op = (lines[j].op or '').lower()
            if op == 'if':
                di += 1
            elif op == 'macro':
                dm += 1
            elif op == 'endif':
                di -= 1
            elif op == 'endm':
                dm -= 1
            elif op in ('else', 'elsif') and di == 0:
                break
            if di < 0 or dm < 0:
                break
            if di == 0 and dm == 0:
                ends.append(j + 1)
        out.append((ends, mac))
        if (lines[i].op or '').lower() == 'macro':
            mac += 1
    return out


SECT = {'code', 'data', 'bss', 'ram', 'auto', 'section'}


def sections_used(lines):
    """Section in force after lines, or None if they don't change it."""
    cur = None
    for l in lines:
        op = (l.op or '').lower()
        if op == 'section':
            cur = l.args[0][1][0]
        elif op in SECT:
            cur = l.op
    return cur


class Splitter:
    def __init__(self, s, in_macros):
        self.s = s
        self.n = 0
        self.files = {}
        self.in_macros = in_macros
        self.style = s.draw(len(NAMES) - 1)

    def fname(self):
        self.n += 1
        f = NAMES[self.style] if self.s.p(70) else self.s.pick(NAMES)
        return f % self.n

    def split(self, items, depth, cur):
        """items: [(line, flat number)].  Returns the same with some runs
        replaced by INCLUDE lines; cur: section in force at the start."""
        s = self.s
        if depth == 0:
            return items
        rs = ranges([l for l, _ in items])
        out = []
        i = 0
        while i < len(items):
            ends, mac = rs[i]
            if ends and s.p(22) and (not mac or self.in_macros):
                j = s.pick(ends)
                name = self.fname()
                part = items[i:j]
                self.files[name] = self.split(part, depth - 1, cur)
                inc = Line(None, s.pick(['include', 'include', 'lib']), [S(name)])
                inc.text = '\t%s\t"%s"' % (inc.op, name.replace('\\', '\\\\').replace('&', '\\&'))
                out.append((inc, 0))
                after = sections_used([l for l, _ in part])
                if after is not None and after != cur:
                    # the flat program stays in the section
                    l = Line(None, 'section', [S(after)])
                    l.text = '\tsection\t"%s";zz' % after
                    out.append((l, 0))
                    cur = after
                i = j
            else:
                x = sections_used([items[i][0]])
                cur = x if x is not None else cur
                out.append(items[i])
                i += 1
        return out


BAD = [lambda: Line(None, 'fdb', [ID('nosuch')]), lambda: Line(None, 'nosuchop'),
       lambda: Line(None, 'bra', [('o', '+', ('pc',), I(1000))]), lambda: Line(None, 'lda', [I(1), I(2), I(3)]),
       lambda: Line(None, 'rmb', [I(-5)]), lambda: Line(None, 'include', [S('no such file')])]

MSG = re.compile(r'^((?:\w+ )?(?:error|warning): )(.*?):(\d+): (.*)$')


def messages(r, where):
    """Messages with positions translated by where: (file, line) -> flat line."""
    out = []
    for l in r.messages():
        m = MSG.match(l)
        if m and (m.group(2), int(m.group(3))) in where:
            l = '%sL%d: %s' % (m.group(1), where[m.group(2), int(m.group(3))], m.group(4))
        out.append(l)
    return out


def split(s, env):
    """A program and the same lines spread over files."""
    mode = s.draw(1)
    feat = ('macro', 'cond', 'local', 'str', 'set', 'org', 'put', 'setdp') if mode else \
        ('section', 'local', 'str', 'set', 'org', 'put', 'setdp')
    g = Gen(s, feat=feat)
    lines = g.program(18, 6)
    faults = 0
    if s.p(25):
        tops = [i for i, (e, m) in enumerate(ranges(lines)) if e and not m]
        for _ in range(s.i(1, 2)):
            lines.insert(s.pick(tops), s.pick(BAD)())
            faults += 1
    if s.p(8):
        lines.append(Line(None, 'end', [I(0x1234)]))
        if s.draw(1):
            lines.append(Line(None, 'nosuchop'))
    elif s.p(15):
        lines.append(Line(None, 'export', [ID('nosuch') if s.p(10) else S('nothere')]))
    lines = copy(lines)
    style = style_for(s, g.isa)
    in_macros = s.draw(1) == 1 and not faults
    flat = Case({MAIN: lines}, isa=g.isa)
    flat.render(style)
    of = flat.model()
    if len(lines) > 1 and any(l.op and l.op.lower() == 'end' for l in lines[:-1]):
        lines = lines[:[i for i, l in enumerate(lines) if l.op and l.op.lower() == 'end'][0] + 1]
    items = [(l, i + 1) for i, l in enumerate(lines)]
    sp = Splitter(s, in_macros)
    # command line files: cut at balanced places
    mains = []
    rest = items
    cur = 'CODE'
    while rest:
        e = ranges([l for l, _ in rest])[0][0]
        j = len(rest) if not e or s.p(60) or len(mains) > 3 else s.pick(e)
        mains.append(rest[:j])
        rest = rest[j:]
    files = {}
    names = []
    depth = s.i(0 if len(mains) > 1 else 1, 3)
    for k, m in enumerate(mains):
        n = MAIN if k == 0 else sp.fname()
        names.append(n)
        files[n] = sp.split(m, depth, cur)
        x = sections_used([l for l, _ in m])
        cur = x if x is not None else cur
    files.update(sp.files)
    if len(files) < 2:
        raise Discard('not split')
    texts, where = {}, {}
    for n, its in files.items():
        eol = '\r\n' if s.p(10) else '\n'
        t = eol.join(l.text for l, _ in its) + eol
        if s.p(20) and its and its[-1][0].text:
            t = t[:-len(eol)]           # no newline at the end of the file
        texts[n] = t
        for i, (l, num) in enumerate(its):
            where[n, i + 1] = num
    tree = Case({n: [l for l, _ in its] for n, its in files.items()}, main=names, isa=g.isa)
    tree.texts = texts
    o = tree.model()
    if any(e[3] == 'depth' for e in o.errors):
        raise Discard('nested too deeply')
    outs = ['out', 'out.lst', 'out.sym']
    opts = flat.options() + ['-v', '-S', '-o', 'out', '-l', 'out.lst', '-s', 'out.sym']
    ra = run.asm(env, opts + [MAIN], flat.write(), outs)
    rb = run.asm(env, opts + names, tree.write(), outs)
    if (ra.rc == 0) != (rb.rc == 0):
        raise Violation('one file gives status %d, several %d: %s' % (
            ra.rc, rb.rc, (ra.stderr + rb.stderr)[:400].decode('latin-1')))
    if ra.rc == 0:
        if ra.out['out'] != rb.out['out']:
            raise Violation('one file: %s\nseveral files: %s' % (
                outputs.show(outputs.srec(ra.out['out']).segs), outputs.show(outputs.srec(rb.out['out']).segs)))
        if sorted(ra.out['out.sym'].split(b'\n')) != sorted(rb.out['out.sym'].split(b'\n')):
            raise Violation('symbols differ between one file and several')
        try:
            outputs.check_listing(rb.out['out.lst'] or b'', o.listing)
        except outputs.Bad as e:
            raise Violation(str(e))
        extra = {outputs.expand(l.text) for its in files.values() for l, n in its if n == 0}
        la = (ra.out['out.lst'] or b'').decode('latin-1').split('\n')
        lb = [l for l in (rb.out['out.lst'] or b'').decode('latin-1').split('\n') if l[22:] not in extra or l[4:22].strip()]
        # included files in unselected branches and macro definitions are not shown
        whole = len([t for t, *_ in o.listing if outputs.expand(t) not in extra]) == len(of.listing)
        if whole and not in_macros and la != lb:
            k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            raise Violation('listings differ at line %d: %r, split %r' % (k + 1, la[k:k + 1], lb[k:k + 1]))
    if not in_macros:
        ma = messages(ra, {(MAIN, i + 1): i + 1 for i in range(len(lines))})
        mb = messages(rb, where)
        # an INCLUDE line that comes and goes between passes moves local labels
        ma, mb = ([m for m in ms if not m.startswith('error: position of local label')] for ms in (ma, mb))
        if ma != mb:
            raise Violation('messages differ\n  one file: %s\n  several:  %s' % (ma, mb))
    return Info(True, ['rc %d' % ra.rc, '%d files' % min(len(files), 8), '%d on command line' % len(names)],
                tree.source(), tree.digest(), evals=2)


def repeat(s, env):
    """Trees of files included several times, against the model."""
    nf = s.i(1, 4)
    names = [s.pick(['inc%d.s', 'sub/f%d', 'F %d.x']) % i for i in range(nf)]
    if s.p(30):
        # alike, but not the same
        names = s.sample(ALIKE, nf)
    files = {}
    macs = s.draw(1)

    def body(k, n):
        out = []
        for _ in range(n):
            c = s.draw(11)
            if c <= 3:
                out.append(Line(None, 'fdb', [s.pick([('pc',), ID('cnt'), I(s.i(0, 99)), ('b', 1), ('fw', 1)])]))
            elif c == 4:
                out.append(Line(('n', 1), s.pick([None, 'nop'])))
            elif c == 5:
                out.append(Line(lab('cnt'), 'set', [('o', '+', ID('cnt'), I(s.i(1, 5)))]))
            elif c == 6:
                out.append(Line(None, s.pick(['section', 'section', 'code', 'DATA']), None))
                if out[-1].op == 'section':
                    out[-1].args = [S(s.pick(['one', 'two', 'CODE', 'One']))]
            elif c == 7 and k + 1 < nf:
                j = s.i(k + 1, nf - 1)
                out.append(Line(None, 'include', [s.pick([S(names[j]), S(names[j]), ID('fname%d' % j)])]))
            elif c == 8:
                out += [Line(None, 'if', [('o', s.pick(['<', '&', '==']), ID('cnt'), I(s.i(0, 9)))]),
                        Line(None, 'fcb', [I(s.i(0, 255))])]
                if s.draw(1) and k + 1 < nf:
                    out += [Line(None, 'else'), Line(None, 'include', [S(names[s.i(k + 1, nf - 1)])])]
                out.append(Line(None, 'endif'))
            elif c == 9 and macs:
                out.append(Line(None, 'inm', [I(s.i(0, 9))]))
            elif c == 10:
                out.append(Line(None, 'setdp', [I(s.i(0, 2))]))
                out.append(Line(None, 'lda', [I(s.i(0, 0x2ff))]))
            else:
                out.append(Line(None, 'nop'))
        return out

    for k in range(nf - 1, -1, -1):
        files[names[k]] = body(k, s.i(0, 6))
    lines = [org(0x1000), Line(lab('cnt'), 'set', [I(0)])]
    lines += [Line(lab('fname%d' % i), 'equ', [S(n)]) for i, n in enumerate(names)]
    if macs:
        inner = [Line(None, 'include', [S('m.s')])] if s.draw(1) else [Line(None, 'nop')]
        files['m.s'] = [Line(None, 'fdb', [IP(1), ('pc',)]), Line(('n', 1))]
        lines += [Line(lab('inm'), 'macro'), Line(None, 'fcb', [IP(1)])] + inner + [Line(None, 'endm')]
    lines.append(Line(('n', 1)))
    for _ in range(s.i(1, 4)):
        lines += body(-1, s.i(0, 3))
        lines.append(Line(None, 'include', [S(s.pick(names))]))
    for n in ('CODE', 'DATA', 'one', 'two', 'One', 'code'):
        lines += [Line(None, 'section', [S(n)]), Line(('n', 1), 'fcb', [I(1)])]
    main = [MAIN]
    if s.p(20):
        # a file may be both listed and included, or listed twice
        main += [s.pick(names) for _ in range(s.i(1, 2))]
    files[MAIN] = lines
    case = Case(files, main=main)
    o, r = check(env, s, case)
    return info(case, o, True, ['%d files' % nf])


def returns(s, env):
    """What an included file does to the section it started in, and where
    assembly goes on after it."""
    sects = ['CODE', 'two', 'three']
    names = ['i1', 'i2', 'i3'][:s.i(1, 3)]
    dps = s.sample([0, 0x12, 0x20, 0x7f, 0xff], 2)

    def body(k, n):
        out = []
        for _ in range(n):
            c = s.draw(9)
            if c <= 1:
                out.append(Line(None, 'section', [S(s.pick(sects))]))
            elif c <= 3:
                out.append(Line(None, 'setdp', [I(s.pick(dps + [-1]))]))
            elif c == 4:
                out.append(Line(None, s.pick(['lda', 'ldx', 'inc', 'sts']), [I(s.pick(dps) << 8 | s.i(0, 255))]))
            elif c == 5:
                out.append(s.pick([Line(None, 'put', [I(s.i(2, 9) << 12)]), Line(None, 'rmb', [I(s.i(1, 5))]),
                                   Line(None, 'align', [I(4)])]))
            elif c == 6:
                out.append(Line(('n', s.i(0, 1)), 'fdb', [s.pick([('pc',), ('b', 0), ('fw', 1)])]))
            elif c == 7:
                out.append(org(s.i(16, 80) << 8))
            elif k + 1 < len(names):
                out.append(Line(None, 'include', [S(names[s.i(k + 1, len(names) - 1)])]))
            else:
                out.append(fcb(k + 1))
        return out

    files = {n: body(k, s.i(0, 5)) for k, n in enumerate(names)}
    lines = [org(0x1000), Line(('n', 0)), Line(('n', 1))]
    for _ in range(s.i(1, 5)):
        lines += body(-1, s.i(0, 3))
        lines.append(Line(None, 'include', [S(s.pick(names))]))
        if s.p(60):
            lines += [Line(None, 'lda', [I(s.pick(dps) << 8 | s.i(0, 255))]), Line(None, 'fdb', [('pc',)])]
    lines += [Line(('n', 0)), Line(('n', 1))]
    for n in sects:
        lines += [Line(None, 'section', [S(n)]), Line(None, 'lda', [I(s.pick(dps) << 8 | s.i(0, 255))]), Line(('n', 0)), Line(('n', 1), 'fdb', [('pc',)])]
    files[MAIN] = lines
    case = Case(files)
    o, r = check(env, s, case)
    return info(case, o, True, ['%d files' % len(names)])


def depth(s, env):
    """Nesting up to and beyond the limit, through files, macros and self inclusion."""
    n = s.i(1, 11)
    k = s.draw(3)
    files = {}
    lines = [org(0x1000), Line(lab('n'), 'set', [I(0)])]
    if k == 0:
        for i in range(n):
            files['d%d' % i] = [Line(None, 'fcb', [I(i)])] + (
                [Line(None, 'include', [S('d%d' % (i + 1))])] if i < n - 1 else []) + [Line(None, 'fcb', [I(100 + i)])]
        lines.append(Line(None, 'include', [S('d0')]))
    elif k == 1:
        files['self.s'] = [Line(lab('n'), 'set', [('o', '+', ID('n'), I(1))]), Line(None, 'fcb', [ID('n')]),
                           Line(None, 'if', [('o', '<', ID('n'), I(n))]), Line(None, 'include', [S('self.s')]),
                           Line(None, 'endif'), Line(None, 'fcb', [('o', '+', ID('n'), I(100))])]
        lines.append(Line(None, 'include', [S('self.s')]))
    elif k == 2:
        # the main file includes itself
        lines += [Line(lab('n'), 'set', [I(1)])]
        lines = [Line(None, 'if', [('o', '==', ID('m'), I(0))]), org(0x1000), Line(None, 'endif'),
                 Line(None, 'fcb', [I(1)]), Line(None, 'include', [S('again.s')])]
        files['again.s'] = [Line(None, 'fcb', [I(2)])] + ([Line(None, 'include', [S('d0')])] if n > 1 else [])
        for i in range(n):
            files['d%d' % i] = [Line(None, 'include', [S('d%d' % (i + 1))])] if i < n - 1 else [Line(None, 'fdb', [('pc',)])]
    else:
        lines += [Line(lab('mm'), 'macro'), Line(None, 'include', [S('d%d' % (n - 1))]), Line(None, 'endm')]
        for i in range(n):
            files['d%d' % i] = [Line(None, 'fcb', [I(i)])] + (
                [Line(None, s.pick(['include', 'include']), [S('d%d' % (i + 1))])] if i < n - 1 else [fcb(9)])
        lines += [Line(None, 'mm'), Line(None, 'include', [S('d0')])]
    files[MAIN] = lines + [fcb(1)]
    case = Case(files)
    o, r = check(env, s, case)
    return info(case, o, True, ['depth %d' % n])


def missing(s, env):
    """Files that can't be read: missing, directories, empty names, below a file."""
    name = s.pick(['nofile.s', 'adir', '', 'afile/x', 'x' * 300, './adir/', 'nosuch/dir/x.s', 'adir/../adir'])
    try:
        os.mkdir('adir')
    except FileExistsError:
        pass
    files = {'afile': ' nop\n', 'ok.s': '\tfcb\t2\n'}
    where = s.draw(3)
    dead = False
    if where == 0:
        files[MAIN] = '\tfcb\t1\n\tinclude\t"%s"\n\tfcb\t2\n' % name
        main = [MAIN]
        if not name:
            files[MAIN] = '\tinclude /nofile/\n'
    elif where == 1:
        files[MAIN] = '\tfcb\t1\n\tinclude "mid.s"\n'
        files['mid.s'] = '\tif 1\n\tlib\t"%s"\n\tendif\n' % (name or 'nofile')
        main = [MAIN]
    elif where == 2:
        files[MAIN] = '\tfcb\t1\n'
        main = [MAIN, name, 'ok.s'] if s.draw(1) else [name, MAIN]
    else:
        dead = s.draw(1) == 1
        c = 0 if dead else 1
        files[MAIN] = 'm\tmacro\n\tif \\1\n\tinclude "%s"\n\tendif\n\tendm\n\tm\t%d\n\tfcb 1\n' % (name or 'nofile', c)
        main = [MAIN]
    r = run.asm(env, ['-S', '-o', 'out', '-s', 'sym'] + main, files, ['out', 'sym'])
    if dead:
        if r.rc:
            raise Violation('INCLUDE in an unselected branch has an effect: %r' % r.stderr[:300])
    elif r.rc == 0:
        raise Violation('unreadable file %r not reported' % name)
    elif r.out['out'] is not None:
        raise Violation('output written although %r could not be read' % name)
    return Info(True, ['dead' if dead else 'unreadable'], '\n'.join('--- %s\n%s' % x for x in files.items()) +
                '\n$ asm6809 ' + ' '.join(main), None)


def many(s, env):
    """Very many files, listed and included, some of them long, with long names."""
    n = s.pick([2, 5, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, s.i(2, 120), s.pick([128, 129, 255, 256, 257, 300, 513])])
    stem = s.pick(['f%d', 'part%d.s', 'x' * 60 + '%d', 'y' * 200 + '%d.asm', '%d', 'sub/%d.s'])
    names = [stem % i for i in range(n)]
    files = {}
    listed = [MAIN]
    defined = []
    for i, nm in enumerate(names):
        ls = [fcb(i)]
        if s.p(30):
            ls.append(Line(lab('l%d' % i), s.pick([None, 'fdb']), None))
            if ls[-1].op:
                ls[-1].args = [('pc',)]
            defined.append('l%d' % i)
        if s.p(15):
            ls.append(Line(None, 'fdb', [ID('l%d' % s.i(0, n - 1))]))
        if s.p(10):
            ls += [Line(('n', 1)), Line(None, 'fdb', [s.pick([('b', 1), ('fw', 1)])])]
        if i < n - 1 and s.p(6):
            ls.append(Line(None, 'section', [S(s.pick(['p', 'q']))]))
        if s.p(4):
            a = s.i(0, 200)
            ls += [fcb((a + j) & 255) for j in range(s.pick([99, 256, 257, 600]))]
        if s.p(10):
            ls.append(fcb(100))
        files[nm] = ls
    lines = [org(0x1000), Line(('n', 1))]
    share = s.pick([0, 30, 100])
    for i, nm in enumerate(names):
        if s.p(share):
            listed.append(nm)
        else:
            lines.append(Line(None, 'include', [S(nm)]))
            if s.p(20):
                lines.append(fcb(i))
            if s.p(8):
                lines.append(Line(None, 'include', [S(s.pick(names[:i + 1]))]) if not defined else fcb(1))
    last = names[-1]
    files[last] = files[last] + [Line(lab(x), 'equ', [I(3)]) for x in sorted({a[1][0] for f in files.values() for l in f for a in (l.args or []) if a[0] == 'id'} - set(defined))]
    for x in ('p', 'q', 'CODE'):
        files[last] += [Line(None, 'section', [S(x)]), Line(('n', 1))]
    files[MAIN] = lines
    case = Case(files, main=listed)
    o, r = check(env, s, case)
    return info(case, o, True, ['%d+ files' % (n // 20 * 20), '%d+ listed' % (len(listed) // 20 * 20)])


PARTS = [Part('text', textcases.part(files=95, listing=50), 8000, 100000), Part('many', many, 1100, 8000), Part('split', split, 29700, 280000), Part('repeat', repeat, 22300, 200000),
         Part('returns', returns, 11100, 100000), Part('arguments', arguments(['include']), 2800, 15000),
         Part('depth', depth, 7400, 40000), Part('missing', missing, 1110, 6000)]
ASSUME = ['files end where conditionals and macro definitions are balanced, and END occurs only on the last line',
          'run as root: files without read permission cannot be tried, directories and missing files stand for them']
