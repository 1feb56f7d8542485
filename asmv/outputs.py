"""Strict decoders for everything the assembler writes.  Any departure from the
documented file structure raises Bad."""
import re


class Bad(Exception):
    pass


class Image:
    """Decoded program: segments [(address, bytes)], exec address or None."""

    def __init__(self, segs, exec_, raw=False):
        self.segs = segs
        self.exec = exec_
        self.raw = raw


def need(cond, what):
    if not cond:
        raise Bad(what)


def binary(data):
    return Image([(None, data)] if data else [], None, True)


def dragondos(data):
    need(len(data) >= 9, 'DragonDOS file shorter than its header')
    need(data[0] == 0x55 and data[8] == 0xaa, 'DragonDOS magic bytes')
    need(data[1] == 0x02, 'DragonDOS file type')
    put, size, ex = (int.from_bytes(data[i:i + 2], 'big') for i in (2, 4, 6))
    need(len(data) == 9 + size, 'DragonDOS size field %d, %d bytes of data' % (size, len(data) - 9))
    return Image([(put, data[9:])] if size else [], ex)


def coco(data):
    segs, i = [], 0
    while True:
        need(i < len(data), 'CoCo file without trailer')
        kind = data[i]
        need(i + 5 <= len(data), 'CoCo file truncated')
        size, addr = int.from_bytes(data[i + 1:i + 3], 'big'), int.from_bytes(data[i + 3:i + 5], 'big')
        if kind == 0xff:
            need(size == 0, 'CoCo trailer')
            need(i + 5 == len(data), 'data after CoCo trailer')
            return Image(_merge(segs), addr)
        need(kind == 0, 'CoCo block type')
        need(size > 0, 'empty CoCo block')
        need(i + 5 + size <= len(data), 'CoCo block truncated')
        segs.append((addr, data[i + 5:i + 5 + size]))
        i += 5 + size


def _merge(recs):
    segs = []
    for a, d in recs:
        if segs and segs[-1][0] + len(segs[-1][1]) == a:
            segs[-1][1].extend(d)
        else:
            segs.append((a, bytearray(d)))
    return [(a, bytes(d)) for a, d in segs]


def srec(data):
    text = data.decode('latin-1')
    need(text.endswith('\n'), 'S-record file does not end with a newline')
    lines = text[:-1].split('\n')
    recs, ex = [], None
    for k, l in enumerate(lines):
        need(re.fullmatch('S[19](?:[0-9A-F]{2}){3,}', l) is not None, 'malformed S-record %r' % l)
        b = bytes.fromhex(l[2:])
        need(b[0] == len(b) - 1, 'S-record count')
        need(sum(b) & 0xff == 0xff, 'S-record checksum of %r' % l)
        addr = b[1] << 8 | b[2]
        if l[1] == '1':
            need(ex is None, 'data record after termination record')
            need(len(b) > 4, 'S1 record without data')
            need(addr + len(b) - 4 <= 0x10000, 'S1 record beyond 64K')
            recs.append((addr, b[3:-1]))
        else:
            need(k == len(lines) - 1, 'S9 record not last')
            need(len(b) == 4, 'S9 record with data')
            ex = addr
    need(ex is not None, 'no S9 record')
    return Image(_merge(recs), ex)


def ihex(data):
    text = data.decode('latin-1')
    need(text.endswith('\n'), 'HEX file does not end with a newline')
    lines = text[:-1].split('\n')
    recs, ex = [], None
    for k, l in enumerate(lines):
        need(re.fullmatch(':(?:[0-9A-F]{2}){5,}', l) is not None, 'malformed HEX record %r' % l)
        b = bytes.fromhex(l[1:])
        need(b[0] == len(b) - 5, 'HEX record count')
        need(sum(b) & 0xff == 0, 'HEX record checksum of %r' % l)
        addr = b[1] << 8 | b[2]
        if b[3] == 0:
            need(len(b) > 5, 'HEX data record without data')
            need(addr + len(b) - 5 <= 0x10000, 'HEX record beyond 64K')
            recs.append((addr, b[4:-1]))
        else:
            need(b[3] == 1 and b[0] == 0, 'HEX record type')
            need(k == len(lines) - 1, 'HEX EOF record not last')
            ex = addr
    need(ex is not None, 'no HEX EOF record')
    return Image(_merge(recs), ex)


DECODE = {'B': binary, 'D': dragondos, 'C': coco, 'S': srec, 'H': ihex}
LONG = {'B': '--bin', 'D': '--dragondos', 'C': '--coco', 'S': '--srec', 'H': '--hex'}


def expected(fmt, segs, exec_):
    """Image that format fmt must carry for merged, non-overlapping segments
    and exec address (or None).  None if it can't represent them."""
    segs = [(a, d) for a, d in segs if d]
    if fmt in 'BD' and segs:
        lo, hi = segs[0][0], segs[-1][0] + len(segs[-1][1])
        if hi - lo > 1 << 20:
            return None
        buf = bytearray(hi - lo)
        for a, d in segs:
            buf[a - lo:a - lo + len(d)] = d
        segs = [(lo, bytes(buf))]
    if fmt == 'B':
        return Image([(None, segs[0][1])] if segs else [], None)
    for a, d in segs:
        if a + len(d) > 0x10000:
            return None
        if fmt in 'DC' and len(d) > 0xffff:
            return None
    if exec_ is None and not segs and fmt in 'DC':
        return Image(segs, None)        # nothing to execute: any address will do
    if exec_ is None:
        exec_ = segs[0][0] if segs and fmt in 'DC' else 0
    return Image(segs, exec_ & 0xffff)


def show(segs):
    return ' '.join('%s:%s' % ('%04X' % a if a is not None else '?',
                               d.hex() if len(d) <= 40 else d[:40].hex() + '..(%d)' % len(d)) for a, d in segs)


# -- listing -----------------------------------------------------------------------

def expand(text):
    out, col = [], 0
    for c in text:
        if c == '\t':
            n = 8 - col % 8
            out.append(' ' * n)
            col += n
        else:
            out.append(c)
            col += 1
    return ''.join(out)


def listing_line(l, text):
    """Split one listing line given its source text; returns (addr, bytes)."""
    x = expand(text)
    m = re.match(r'([0-9A-F]{4})  ((?:[0-9A-F]{2})*)', l)
    addr, data, head = None, b'', ''
    if m and not l.startswith(' '):
        addr, data, head = int(m.group(1), 16), bytes.fromhex(m.group(2)), m.group(0)
    prefix = head.ljust(22) if len(head) < 22 else head + ' '
    if l != prefix + x:
        raise Bad('listing line %r does not show %r' % (l, x))
    return addr, data


def check_listing(data, model):
    """data: listing file; model: [(text, kind, addr, data)]."""
    text = data.decode('latin-1')
    if text and not text.endswith('\n'):
        raise Bad('listing does not end with a newline')
    got = text[:-1].split('\n') if text else []
    if len(got) != len(model):
        k = 0
        while k < min(len(got), len(model)) and got[k].rstrip().endswith(expand(model[k][0]).strip()):
            k += 1
        raise Bad('listing has %d lines instead of %d; first difference near line %d: %r / %r' % (
            len(got), len(model), k + 1, got[k] if k < len(got) else None,
            model[k][0] if k < len(model) else None))
    for k, (l, (t, kind, addr, bs)) in enumerate(zip(got, model)):
        a, d = listing_line(l, t)
        if d != bs:
            raise Bad('listing line %d %r: shows bytes %s, emitted %s' % (k + 1, t, d.hex(), bs.hex()))
        if kind and addr is not None and a != addr & 0xffff:
            raise Bad('listing line %d %r: shows address %s instead of %04X' % (
                k + 1, t, 'none' if a is None else '%04X' % a, addr & 0xffff))


# -- symbols -------------------------------------------------------------------------

ESC = {'n': '\n', 'r': '\r', 't': '\t'}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            need(i < len(s), 'dangling backslash')
            c = ESC.get(s[i], s[i])
            need(not s[i].isdigit() and s[i] != '{', 'unescaped positional variable')
        elif c == '&':
            need(i + 1 < len(s) and s[i + 1] == '&', 'unescaped &')
            i += 1
        out.append(c)
        i += 1
    return ''.join(out)


REG = re.compile(r'(--?)?([a-zA-Z]+)(\+\+?|-)?$')


def symbol_value(t):
    """(type, value, attr) of an EQU operand in a symbols file."""
    if t[:1] == '/':
        i = 1
        while i < len(t) and t[i] != '/':
            i += 2 if t[i] == '\\' else 1
        need(i == len(t) - 1, 'string not properly delimited: %r' % t)
        return ('s', unescape(t[1:-1]), '')
    m = re.fullmatch(r'(-?)\$([0-9a-fA-F]+)', t)
    if m:
        v = int(m.group(2), 16)
        return ('i', -v if m.group(1) else v, '')
    if re.fullmatch(r'-?\d+', t):
        return ('i', int(t), '')
    if re.fullmatch(r'-?(\d+\.\d*|\.\d+)', t):
        return ('f', float(t), '')
    m = REG.fullmatch(t)
    need(m is not None, 'value %r' % t)
    at = {'-': '-x', '--': '--x'}.get(m.group(1)) or {'-': 'x-'}.get(m.group(3)) or m.group(3) or ''
    return ('r', m.group(2).lower(), at)


def symbols(data):
    """Symbols file -> dict; duplicates are Bad."""
    text = data.decode('latin-1')
    need(not text or text.endswith('\n'), 'file does not end with a newline')
    out = {}
    for l in text[:-1].split('\n') if text else []:
        f = l.split('\t', 2)
        need(len(f) == 3 and f[1] == 'equ', 'line %r' % l)
        need(f[0] not in out, 'symbol %s appears twice' % f[0])
        out[f[0]] = symbol_value(f[2])
    return out


def check_symbols(data, model, ignore=()):
    got = symbols(data)
    for n in sorted(set(got) | set(model)):
        if n in ignore:
            continue
        if n not in got:
            raise Bad('symbol %s is missing from the symbols file' % n)
        if n not in model:
            raise Bad('symbol %s in the symbols file was never defined' % n)
        a, b = got[n], model[n]
        if b is None:
            continue
        if b[0] == 'i':
            same = a[0] == 'i' and a[1] == b[1]
        elif b[0] == 'f':
            same = a[0] in 'fi' and float(a[1]) == b[1]
        elif b[0] == 'r':
            same = a == (b[0], b[1], b[2])
        else:
            same = a[:2] == b[:2]
        if not same:
            raise Bad('symbol %s is %r in the symbols file, should be %r' % (n, a, b))
