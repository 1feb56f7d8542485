"""Comparison of the assembler under test with the reference model."""
import hashlib

from . import model, outputs, render, run
from .engine import Violation, Discard, judging
from .model import Asm, Unsure, FATAL
from .outputs import Bad

MAIN = 'main.s'


class Case:
    """A program with its options."""

    def __init__(self, files, main=(MAIN,), isa=6809, setdp=-1, defines=(), binfiles=None, max_passes=12,
                 cli_exec=None):
        self.files = files              # name -> [Line]
        self.main = list(main)
        self.isa = isa
        self.setdp = setdp
        self.defines = list(defines)
        self.bin = binfiles or {}
        self.max_passes = max_passes
        self.cli_exec = cli_exec
        self.malformed = {}             # included file -> lines that can't be parsed
        self.texts = {}

    def render(self, style):
        for n, lines in self.files.items():
            self.texts[n] = render.program(style, lines)
        return self

    def model(self):
        try:
            a = Asm(self.files, self.main, self.isa, self.setdp, self.defines, self.max_passes, self.bin)
            a.malformed.update(self.malformed)
            o = a.run()
            ex = o.exec
            if self.cli_exec is not None:
                o.exec_addr = self.cli_exec
            else:
                o.exec_addr = model.to_int(ex) if ex is not None else None
            if o.exec_addr is not None and o.exec_addr < 0:
                raise Unsure('negative EXEC address')
            return o
        except Unsure as u:
            raise Discard(str(u))

    def options(self):
        a = []
        if self.isa == 6309:
            a.append('--6309')
        if self.setdp >= 0:
            a += ['--setdp', '%d' % self.setdp]
        for n, v in self.defines:
            a += ['-d', '%s=%d' % (n, v)]
        if self.max_passes != 12:
            a += ['--max-passes', '%d' % self.max_passes]
        if self.cli_exec is not None:
            a += ['-e', '%d' % self.cli_exec]
        return a

    def write(self):
        d = {n: t for n, t in self.texts.items()}
        d.update(self.bin)
        return d

    def source(self):
        return '\n'.join('--- %s\n%s' % (n, t) for n, t in self.texts.items())

    def digest(self):
        return hashlib.blake2b(repr((self.texts, self.options(), self.main)).encode('utf8', 'surrogateescape'),
                               digest_size=8).hexdigest()


def describe(o):
    return 'errors: ' + '; '.join('%s:%s level %d %s' % (e[1], e[2], e[0], e[3]) for e in o.errors[:6])


def compare_image(fmt, data, o):
    """Decode output data and compare with the model's memory image."""
    exp = outputs.expected(fmt, o.segments, o.exec_addr)
    try:
        img = outputs.DECODE[fmt](data)
    except Bad as e:
        raise Violation('format %s output is malformed: %s' % (fmt, e))
    if img.segs != exp.segs:
        raise Violation('generated code differs\n  got      %s\n  expected %s' % (
            outputs.show(img.segs), outputs.show(exp.segs)))
    if exp.exec is not None and img.exec != exp.exec and fmt != 'B':
        raise Violation('EXEC address %s instead of %s' % (img.exec, exp.exec))


def diff(case, env, fmt='C', listing=False, symbols=False, exports=False, extra=(), variant='plain', o=None):
    """Assemble and compare everything requested.  Returns (outcome, result)."""
    if o is None:
        o = case.model()
    outs = ['out']
    args = case.options() + ['-' + fmt, '-o', 'out']
    if listing:
        args += ['-l', 'out.lst']
        outs.append('out.lst')
    if symbols:
        args += ['-s', 'out.sym']
        outs.append('out.sym')
    if exports:
        args += ['-E', 'out.exp']
        outs.append('out.exp')
    args += list(extra) + case.main
    expect_ok = o.ok and not o.overlap
    if expect_ok and outputs.expected(fmt, o.segments, o.exec_addr) is None:
        expect_ok = False
    if expect_ok and exports:
        for e in o.exports:
            if o.symbols.get(e) is None and e not in o.macros:
                expect_ok = False
            elif e in o.symbols and e in o.macros:
                raise Discard('macro and symbol of one name exported')
    r = run.asm(env, args, case.write(), outs, variant=variant)
    if expect_ok and r.rc != 0:
        raise Violation('valid program rejected: %s' % r.stderr[:600].decode('latin-1'))
    if not expect_ok:
        if r.rc == 0:
            raise Violation('invalid program accepted (%s)' % describe(o))
        return o, r
    if r.out['out'] is None:
        raise Violation('no output file written')
    compare_image(fmt, r.out['out'], o)
    try:
        if listing:
            outputs.check_listing(r.out['out.lst'] or b'', o.listing)
        if symbols:
            outputs.check_symbols(r.out['out.sym'] or b'', o.symbols)
    except Bad as e:
        raise Violation(str(e))
    return o, r
