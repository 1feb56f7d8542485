"""Helpers shared by the checks."""
from .. import core, gen, isa as isa_mod, outputs, render, run
from ..core import Case, MAIN
from ..engine import Discard, Info, Part, Violation, judging
from ..gen import Gen, I, ID, IP, S, EMPTY, reg
from ..model import Line

ALL = ('macro', 'include', 'cond', 'local', 'section', 'org', 'put', 'set', 'str', 'setdp')


def style_for(s, isa, rand=True):
    """Random spelling half of the time."""
    if rand and s.draw(1):
        return render.RandStyle(s, isa)
    return render.Style(isa)


def program(s, feat=ALL, n=12, nsyms=6, isa=None, **kw):
    g = Gen(s, isa=isa, feat=feat)
    lines = g.program(n, nsyms)
    files = {MAIN: lines}
    files.update(g.files)
    return Case(files, isa=g.isa, **kw), g


def fmt_for(s):
    return s.pick('CSHCDB')


def check(env, s, case, style=None, listing=None, symbols=None, fmt=None, info=None):
    """Render, assemble, compare everything."""
    if not case.texts:
        case.render(style or style_for(s, case.isa))
    return core.diff(case, env, fmt=fmt or fmt_for(s),
                     listing=s.p(30) if listing is None else listing,
                     symbols=s.p(30) if symbols is None else symbols)


def verdict(o):
    """Short class of the outcome, for evidence."""
    if o.ok and not o.overlap:
        return 'accepted, %s' % ('1 pass' if o.passes == 1 else '%d passes' % o.passes if o.passes < 16 else '16+ passes')
    if o.ok:
        return 'rejected: overlap'
    return 'rejected: ' + max(o.errors, key=lambda e: e[0])[3] if o.errors else 'rejected: inconsistent'


def info(case, o, nontrivial=True, tags=(), evals=1):
    return Info(nontrivial, [verdict(o)] + list(tags), case.source(), case.digest(), evals)


def fcb(v=0):
    return Line(None, 'fcb', [I(v)])


def org(v):
    return Line(None, 'org', [I(v)])


def lab(name):
    return ('id', [name])


def arguments(ops, label=False):
    """Part: directives with any number of arguments of any type; wrong ones are
    rejected and blamed, right ones have their effect."""
    def arg(s):
        return s.pick([lambda: I(s.i(0, 300)), lambda: I(s.pick([0, 1, 2, 0x100, 0x7fff, -1])), lambda: S(s.pick(['a', 'CODE', 'zz'])),
                       lambda: reg(s.pick('xabdu')), lambda: ('f', s.pick(['2.5', '16.0', '1.25'])),
                       lambda: ('arr', [I(1)]), lambda: ID('here'), lambda: ID('later'), lambda: ID('nowhere'),
                       lambda: ('attr', s.pick('#<>'), I(s.i(0, 9))), lambda: EMPTY,
                       lambda: ('o', '-', ID('later'), ID('here'))])()

    def part(s, env):
        op = s.pick(ops)
        n = s.w((4, 1), (4, 2), (2, 0), (2, 3))
        args = [arg(s) for _ in range(n)]
        if not args or args == [EMPTY]:
            args = None
        ln = Line(lab('it') if label or s.p(20) else None, op, args)
        lines = [org(0x103), Line(lab('here')), fcb(1), ln, fcb(2), Line(None, 'lda', [I(0x104)]), Line(lab('later'), 'fdb', [('pc',)])]
        if op in ('if', 'elsif') and s.p(80):
            # in its place in a conditional
            i = lines.index(ln)
            if s.p(40):
                lines[i + 2:i + 2] = [Line(None, 'else'), fcb(3)]
            if s.p(20):
                lines[i + 2:i + 2] = [Line(None, 'elsif', [I(s.draw(1))]), fcb(4)]
            j = next(k for k, l in enumerate(lines) if l.op == 'lda')
            lines.insert(j, Line(None, 'endif'))
            if op == 'elsif':
                lines.insert(i, Line(None, 'if', [I(s.draw(1))]))
        if s.p(30):
            lines.insert(1, Line(None, 'nop'))
        case = Case({MAIN: lines, 'a': [Line(None, 'fcb', [I(9)])]} if op == 'include' else {MAIN: lines})
        o, r = check(env, s, case)
        at = lines.index(ln) + 1
        if not o.ok and any(e[2] == at for e in o.errors if e[0] >= o.level) and ('%s:%d:' % (MAIN, at)).encode() not in r.stderr:
            raise Violation('error not reported for %s:%d: %s' % (MAIN, at, r.stderr[:300].decode('latin-1')))
        return info(case, o, True, ['%s with %d arguments' % (op, n)])
    part.__doc__ = arguments.__doc__
    return part


def bulk(makers, upto=1500, isa=None, after=None):
    """A part: one to three kinds of line, over and over, very many times.  makers
    are functions (s, g) -> function i -> lines."""
    def fn(s, env):
        g = Gen(s, isa=isa)
        n = s.pick([50, 100, 129, 151, 200, 256, 257, 300, 400, 513, 700, 1000, upto])
        which = [s.draw(len(makers) - 1) for _ in range(s.i(1, 3))]
        fs = [makers[w](s, g) for w in which]
        pre, g.lines = g.lines, []
        for d in list(g.syms):
            if not d['done']:
                g.define(d)
        lines = [org(s.pick([0x400, 0, 0x1000]))] + pre
        mode = s.draw(2)
        for i in range(n):
            f = fs[i % len(fs)] if mode == 0 else fs[i * len(fs) // n] if mode == 1 else s.pick(fs)
            lines += [Line(l.label, l.op, l.args, l.comment) for l in f(i)]
        case = Case({MAIN: lines + g.lines + [fcb(1)]}, isa=g.isa)
        case.bin.update(getattr(g, 'bins', {}))
        o, r = check(env, s, case, listing=s.p(20), symbols=s.p(20))
        return info(case, o, True, ['%d+ times' % (n // 200 * 200)])
    fn.__name__ = 'bulk'
    return fn


def rotate(make, size=5):
    """For bulk: a few lines by make(s, g), in turn."""
    def maker(s, g):
        pool = [make(s, g) for _ in range(s.i(1, size))]
        return lambda i: [pool[i % len(pool)]]
    return maker
