"""6809/6309 machine code tables, written from the processors' opcode maps.

Deliberately organised by opcode map column rather than per mnemonic, so that it
shares neither data nor structure with the assembler under test.

FORMS: mnemonic -> dict(kind=..., codes...)
 kind 'inh'   : inherent,            code
 kind 'mem'   : memory operand,      dir/idx/ext, optionally imm + immsize
 kind 'lea'   : indexed only         idx
 kind 'rel8' / 'rel16'               code
 kind 'imm'   : immediate only       imm + immsize
 kind 'stack' : register list        code, own (the stack register itself)
 kind 'pair'                          code
 kind 'tfm'                           code (first of four)
 kind 'bit'   : register bit transfer code
 kind 'immem' : #imm,memory          dir/idx/ext
"""


def op(code):
    """Opcode number to bytes (page prefix only if present)."""
    return bytes([code >> 8, code & 0xff]) if code > 0xff else bytes([code])


I6809 = {}
I6309 = {}


def _inh(t, **kw):
    for name, code in kw.items():
        t[name] = dict(kind='inh', code=code)


# --- page 1, columns 0/6/7 (and 4/5 for accumulators) -----------------------
_rmw = {0x0: 'neg', 0x3: 'com', 0x4: 'lsr', 0x6: 'ror', 0x7: 'asr', 0x8: 'asl',
        0x9: 'rol', 0xa: 'dec', 0xc: 'inc', 0xd: 'tst', 0xf: 'clr'}
for _lo, _n in _rmw.items():
    for _name in ([_n, 'lsl'] if _n == 'asl' else [_n]):
        I6809[_name] = dict(kind='mem', dir=_lo, idx=0x60 | _lo, ext=0x70 | _lo)
        I6809[_name + 'a'] = dict(kind='inh', code=0x40 | _lo)
        I6809[_name + 'b'] = dict(kind='inh', code=0x50 | _lo)
I6809['jmp'] = dict(kind='mem', dir=0x0e, idx=0x6e, ext=0x7e)

# --- column 1, 3 -------------------------------------------------------------
_inh(I6809, nop=0x12, sync=0x13, daa=0x19, sex=0x1d, rts=0x39, abx=0x3a, rti=0x3b,
     mul=0x3d, swi=0x3f, swi2=0x103f, swi3=0x113f)
for _n, _c in (('orcc', 0x1a), ('andcc', 0x1c), ('cwai', 0x3c)):
    I6809[_n] = dict(kind='imm', imm=_c, immsize=1)
I6809['exg'] = dict(kind='pair', code=0x1e)
I6809['tfr'] = dict(kind='pair', code=0x1f)
for _i, _n in enumerate(('leax', 'leay', 'leas', 'leau')):
    I6809[_n] = dict(kind='lea', idx=0x30 + _i)
for _i, (_n, _own) in enumerate((('pshs', 's'), ('puls', 's'), ('pshu', 'u'), ('pulu', 'u'))):
    I6809[_n] = dict(kind='stack', code=0x34 + _i, own=_own)

# --- branches ----------------------------------------------------------------
_cond = ['ra', 'rn', 'hi', 'ls', 'cc', 'cs', 'ne', 'eq', 'vc', 'vs', 'pl', 'mi', 'ge', 'lt', 'gt', 'le']
for _i, _c in enumerate(_cond):
    for _a in {'cc': ['cc', 'hs'], 'cs': ['cs', 'lo']}.get(_c, [_c]):
        I6809['b' + _a] = dict(kind='rel8', code=0x20 + _i)
        I6809['lb' + _a] = dict(kind='rel16', code=0x16 if _c == 'ra' else 0x1020 + _i)
I6809['bsr'] = dict(kind='rel8', code=0x8d)
I6809['lbsr'] = dict(kind='rel16', code=0x17)


# --- columns 8-F --------------------------------------------------------------
def _alu(t, name, base, size, page=0, imm=True):
    d = dict(kind='mem', dir=page | base + 0x10, idx=page | base + 0x20, ext=page | base + 0x30)
    if imm:
        d['imm'] = page | base
        d['immsize'] = size
    t[name] = d


_a8 = {0: 'sub', 1: 'cmp', 2: 'sbc', 4: 'and', 5: 'bit', 6: 'ld', 8: 'eor', 9: 'adc', 0xa: 'or', 0xb: 'add'}
for _base, _r in ((0x80, 'a'), (0xc0, 'b')):
    for _lo, _n in _a8.items():
        _alu(I6809, _n + _r, _base | _lo, 1)
    _alu(I6809, 'st' + _r, _base | 7, 1, imm=False)
    # 6800 style spellings
    for _n in ('ld', 'st', 'or'):
        I6809[_n + 'a' + _r] = I6809[_n + _r]
_alu(I6809, 'subd', 0x83, 2)
_alu(I6809, 'addd', 0xc3, 2)
_alu(I6809, 'cmpx', 0x8c, 2)
I6809['cpx'] = I6809['cmpx']
_alu(I6809, 'jsr', 0x8d, 0, imm=False)
_alu(I6809, 'ldx', 0x8e, 2)
_alu(I6809, 'stx', 0x8f, 2, imm=False)
_alu(I6809, 'ldd', 0xcc, 2)
_alu(I6809, 'std', 0xcd, 2, imm=False)
_alu(I6809, 'ldu', 0xce, 2)
_alu(I6809, 'stu', 0xcf, 2, imm=False)
_alu(I6809, 'cmpd', 0x83, 2, 0x1000)
_alu(I6809, 'cmpy', 0x8c, 2, 0x1000)
_alu(I6809, 'ldy', 0x8e, 2, 0x1000)
_alu(I6809, 'sty', 0x8f, 2, 0x1000, imm=False)
_alu(I6809, 'lds', 0xce, 2, 0x1000)
_alu(I6809, 'sts', 0xcf, 2, 0x1000, imm=False)
_alu(I6809, 'cmpu', 0x83, 2, 0x1100)
_alu(I6809, 'cmps', 0x8c, 2, 0x1100)

# --- 6309 additions -----------------------------------------------------------
for _lo, _n in ((1, 'oim'), (2, 'aim'), (5, 'eim'), (0xb, 'tim')):
    I6309[_n] = dict(kind='immem', dir=_lo, idx=0x60 | _lo, ext=0x70 | _lo)
_inh(I6309, sexw=0x14, pshsw=0x1038, pulsw=0x1039, pshuw=0x103a, puluw=0x103b)
for _i, _n in enumerate(('addr', 'adcr', 'subr', 'sbcr', 'andr', 'orr', 'eorr', 'cmpr')):
    I6309[_n] = dict(kind='pair', code=0x1030 + _i)
for _lo, _n in _rmw.items():                       # D: whole column bar none
    for _name in ([_n, 'lsl'] if _n == 'asl' else [_n]):
        I6309[_name + 'd'] = dict(kind='inh', code=0x1040 | _lo)
for _lo in (3, 4, 6, 9, 0xa, 0xc, 0xd, 0xf):       # W: no NEG, ASR, ASL
    I6309[_rmw[_lo] + 'w'] = dict(kind='inh', code=0x1050 | _lo)
for _lo in (3, 0xa, 0xc, 0xd, 0xf):                # E, F
    I6309[_rmw[_lo] + 'e'] = dict(kind='inh', code=0x1140 | _lo)
    I6309[_rmw[_lo] + 'f'] = dict(kind='inh', code=0x1150 | _lo)
for _lo, _n in ((0, 'subw'), (1, 'cmpw'), (2, 'sbcd'), (4, 'andd'), (5, 'bitd'), (6, 'ldw'),
                (8, 'eord'), (9, 'adcd'), (0xa, 'ord'), (0xb, 'addw')):
    _alu(I6309, _n, 0x80 | _lo, 2, 0x1000)
_alu(I6309, 'stw', 0x87, 2, 0x1000, imm=False)
I6309['ldq'] = dict(kind='mem', imm=0xcd, immsize=4, dir=0x10dc, idx=0x10ec, ext=0x10fc)
_alu(I6309, 'stq', 0xcd, 4, 0x1000, imm=False)
for _base, _r in ((0x80, 'e'), (0xc0, 'f')):
    for _lo in (0, 1, 6, 0xb):
        _alu(I6309, _a8[_lo] + _r, _base | _lo, 1, 0x1100)
    _alu(I6309, 'st' + _r, _base | 7, 1, 0x1100, imm=False)
_alu(I6309, 'divd', 0x8d, 1, 0x1100)
_alu(I6309, 'divq', 0x8e, 2, 0x1100)
_alu(I6309, 'muld', 0x8f, 2, 0x1100)
for _i, _n in enumerate(('band', 'biand', 'bor', 'bior', 'beor', 'bieor', 'ldbt', 'stbt')):
    I6309[_n] = dict(kind='bit', code=0x1130 + _i)
I6309['tfm'] = dict(kind='tfm', code=0x1138)
I6309['bitmd'] = dict(kind='imm', imm=0x113c, immsize=1)
I6309['ldmd'] = dict(kind='imm', imm=0x113d, immsize=1)

ALL6309 = dict(I6809)
ALL6309.update(I6309)

# --- registers ------------------------------------------------------------------
REGS6809 = ['cc', 'a', 'b', 'dp', 'x', 'y', 'u', 's', 'pc', 'd', 'pcr']
REGS6309 = ['e', 'f', 'w', 'q', 'v']
# code in TFR/EXG and inter-register postbytes
PAIR_CODE = dict(d=0, x=1, y=2, u=3, s=4, pc=5, w=6, v=7, a=8, b=9, cc=10, dp=11, e=14, f=15)
PAIR_SIZE = dict(d=16, x=16, y=16, u=16, s=16, pc=16, w=16, v=16, a=8, b=8, cc=8, dp=8, e=8, f=8)
STACK_BIT = dict(cc=0x01, a=0x02, b=0x04, d=0x06, dp=0x08, x=0x10, y=0x20, u=0x40, s=0x40, pc=0x80)
TFM_CODE = dict(d=0, x=1, y=2, u=3, s=4)
TFM_MODE = {('+', '+'): 0, ('-', '-'): 1, ('+', ''): 2, ('', '+'): 3}
BIT_CODE = dict(cc=0x00, a=0x40, b=0x80)
IDX_BITS = dict(x=0x00, y=0x20, u=0x40, s=0x60)


def regs(isa):
    return set(REGS6809) | (set(REGS6309) if isa == 6309 else set())


def table(isa):
    return ALL6309 if isa == 6309 else I6809
