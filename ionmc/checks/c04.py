# -*- coding: utf-8 -*-
"""C04: the binary reader against the reference decoder, over exhaustively enumerated byte strings."""
from itertools import product

from ..harness import Violation
from ..model import ion, from_py, Mismatch, canon
from .. import refbin
from ..refbin import IVM, varuint, varint, sint, uint, td
from ..refsym import RefError, Unspecified

PID = 'C04'
RULE = ('Every byte string of the named families: all strings to 2 bytes, every descriptor byte times representative '
        'continuations, every container or annotation wrapper (lengths exact, one short, one long) around enumerated contents, '
        'all field-width variants of every scalar, fields of up to 257 bits, contents of up to 2 MiB, invalid UTF-8, and all short sequences of stream fragments; the reference '
        'decoder gives the verdict (value or error); state = distinct byte string, transition = one decode; all are non-trivial.')
ASSUMPTIONS = ['negative zero exponents and offsets on date-only timestamps are left open (counted as unspecified)']

R = [0x00, 0x01, 0x02, 0x03, 0x0a, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x1f, 0x20, 0x21, 0x22, 0x2e, 0x2f, 0x30, 0x31, 0x3f, 0x40, 0x41,
     0x44, 0x48, 0x4f, 0x50, 0x51, 0x5e, 0x5f, 0x60, 0x61, 0x63, 0x6f, 0x70, 0x71, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x87,
     0x8a, 0x8e, 0x8f, 0x90, 0xa1, 0xa9, 0xb0, 0xb1, 0xb2, 0xbe, 0xc0, 0xc1, 0xc3, 0xd0, 0xd1, 0xd2, 0xde, 0xe0, 0xe2, 0xe3,
     0xe4, 0xea, 0xee, 0xef, 0xf0, 0xff]
R2 = [0x00, 0x01, 0x0f, 0x11, 0x20, 0x21, 0x40, 0x71, 0x80, 0x81, 0x82, 0x84, 0x8f, 0xc0, 0xc1, 0xd1, 0xe0, 0xff]
R3 = [0x00, 0x01, 0x11, 0x20, 0x80, 0x81, 0x84, 0xc1, 0xe0, 0xff]


def decide(payload, rec):
    data = IVM + payload
    i = ion()
    try:
        want = refbin.decode_stream(data)
    except RefError as e:
        want = None
    except Unspecified:
        rec.outcome('unspecified')
        try:
            i.loads(data, single_value=False)
        except Exception:
            pass
        return
    rec.n_states += 1
    rec.trans()
    rec.trace()
    try:
        vals = i.loads(data, single_value=False)
    except Exception as e:
        if want is None:
            rec.outcome('rejected %s' % type(e).__name__)
            return
        raise Violation('%s is valid and denotes %r, but loading it raises %s: %s' % (
            data.hex(), want, type(e).__name__, str(e)[:300]))
    try:
        got = [from_py(v) for v in vals]
    except Mismatch as e:
        got = 'Mismatch %s' % e
    if want is None:
        raise Violation('%s is not valid Ion, but loads to %r' % (data.hex(), got))
    if got != want and (isinstance(got, str) or [canon(n) for n in got] != [canon(n) for n in want]):
        raise Violation('%s denotes %r, but loads to %r' % (data.hex(), want, got))
    rec.outcome('values %s' % (','.join(n[1] for n in want[:3])))


KINDS = {'bytes': decide}


def g_short():
    yield b''
    for a in range(256):
        yield bytes([a])
        for b in range(256):
            yield bytes([a, b])


def g_t3():
    for a in range(256):
        for b in R:
            for c in R:
                yield bytes([a, b, c])


def g_t4():
    for a in range(256):
        for b, c, d in product(R3, R3, R3):
            yield bytes([a, b, c, d])


def g_t4x():
    for a in range(256):
        for b, c, d in product(R2, R2, R):
            yield bytes([a, b, c, d])


def g_t5():
    for a in range(256):
        for b in product(R3, R3, R3, R3):
            yield bytes((a,) + b)


WRAPS = [lambda n: bytes([0xb0 | n]), lambda n: bytes([0xc0 | n]), lambda n: bytes([0xd0 | (n + 1), 0x84]), lambda n: bytes([0xd1, 0x80 | (n + 1), 0x84]),
         lambda n: bytes([0xe0 | (n + 2), 0x81, 0x84]), lambda n: bytes([0xbe, 0x00, 0x80 | n]), lambda n: bytes([0xee, 0x80 | (n + 3), 0x82, 0x84, 0x8a]),
         lambda n: bytes([0xde, 0x80 | (n + 2), 0x00, 0x84]), lambda n: bytes([0xe0 | (n + 3), 0x82, 0x84, 0x85]),
         lambda n: bytes([0xb0 | (n + 1), 0xb0 | n]), lambda n: bytes([0xe0 | (n + 3), 0x81, 0x84, 0xb0 | n]), lambda n: bytes([0xb0 | (n + 3), 0xe0 | (n + 2), 0x81, 0x84])]


def g_wrapped(contents):
    for body in contents:
        for w in WRAPS:
            for d in (0, -1, 1):
                n = len(body) + d
                if n < 0 or n > 10:
                    continue
                yield w(n) + body
                if d == 0:
                    yield w(n) + body + b'\x11'
                    yield w(n + 1) + body + b'\x0f'
                    yield w(n + 1) + body + b'\x00'
                    yield w(n) + body + b'\x81\x84\x11'


def contents1():
    for a in range(256):
        yield bytes([a])
        for b in R2:
            yield bytes([a, b])
    for a in R:
        for b in R3:
            for c in R3:
                yield bytes([a, b, c])


def contents2():
    for a in range(256):
        for b in R:
            for c in R2:
                yield bytes([a, b, c])


def long_td(t, body, width):
    return bytes([t << 4 | 14]) + varuint(len(body), width) + body


INT_BODIES = [b'', b'\0', b'\0\0', b'\x01', b'\0\x01', b'\x7f', b'\x80', b'\xff', b'\x01\0', b'\0\x7f\xff', b'\xff' * 8, b'\0' + b'\xff' * 8, b'\x01' + b'\0' * 8, b'\x80' + b'\0' * 12, b'\x7f' * 13,
              b'\x55' * 14, b'\xaa' * 20, b'\0' * 13 + b'\x01', b'\0' * 15 + b'\x02']
EXPS = [varint(n, False, w) for n in (0, 1, -1, 2, -2, 63, -63, 64, -64, 8191, 8192, -8192, 300, -300) for w in (0, 2, 3)] + [b'\x40\x80', b'\xc0', b'', b'\x00', b'\x00\x00\x81', b'\x41\x80']
COEFS = [b'', b'\0', b'\x80', b'\x01', b'\x81', b'\0\x01', b'\x80\x01', b'\x80\0', b'\0\0', b'\x7f', b'\xff', b'\0\x80', b'\x80\x80', b'\x7f\xff', b'\0\xff\xff', b'\x01' + b'\0' * 8, b'\x81' + b'\0' * 8,
         b'\x7f' + b'\xff' * 15, b'\0' * 14 + b'\x09']


def g_scalars():
    for t in (2, 3):
        for b in INT_BODIES:
            if len(b) < 14:
                yield bytes([t << 4 | len(b)]) + b
            for w in (0, 1, 2, 3, 6):
                yield long_td(t, b, w)
    for n in range(0, 14):
        for t in range(2, 15):
            for fill in (0x00, 0x01, 0x40, 0x41, 0x61, 0x80, 0x81, 0xc1, 0xff):
                yield bytes([t << 4 | n]) + bytes([fill]) * n
                yield long_td(t, bytes([fill]) * n, 2)
                if n:
                    yield bytes([t << 4 | n]) + bytes([fill]) * (n - 1)
    # floats: sign/exponent/mantissa classes of both widths
    for hi in (0x00, 0x01, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xff):
        for b in (0x00, 0x01, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xf0, 0xf7, 0xf8, 0xef, 0xff):
            for rest in (0x00, 0x01, 0x80, 0xff):
                for last in (0x00, 0x01, 0xff):
                    yield bytes([0x44, hi, b, rest, last])
                    yield bytes([0x48, hi, b, rest, rest, rest, rest, rest, last])
                    yield bytes([0x4e, 0x84, hi, b, rest, last])
                    yield bytes([0x4e, 0x00, 0x88, hi, b, rest, 0, 0, 0, 0, last])
    for n in range(0, 16):
        yield td(4, b'\x3f' * n)
    for e in EXPS:
        for c in COEFS:
            b = e + c
            yield td(5, b)
            yield long_td(5, b, 2)
    for c in (0, 1, 3, 9, 10, 127, 128, 300, 16384):
        for w in range(1, 6):
            yield td(7, c.to_bytes(w, 'big')) if c < 256 ** w else b'\x70'
    # lobs and strings of boundary lengths
    for n in (0, 1, 12, 13, 14, 15, 126, 127, 128, 129, 300, 16383, 16384):
        for t in (8, 9, 10):
            b = b'a' * n
            yield td(t, b)
            for w in (1, 2, 3, 4):
                yield long_td(t, b, w)
                yield long_td(t, b, w)[:-1]
                yield long_td(t, b, w) + b'\x11'
        yield td(0, b'\xff' * n) + b'\x11'
        yield long_td(0, b'\x00' * n, 3) + b'\x11'
        yield td(11, td(0, b'q' * n) + b'\x11')
        yield td(13, b'\x84' + td(0, b'q' * n) + b'\x85\x11')
        yield td(13, b'\x85\x11\x84' + td(0, b'q' * n))
        yield td(14, b'\x81\x84' + td(0, b'q' * n))


def utf8_bad():
    H = [0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff, 0x8f, 0x90, 0x9f, 0xa0]
    for n in (1, 2, 3):
        for b in product(H, repeat=n):
            yield bytes(b)
    H4 = [0x41, 0x80, 0x8f, 0x90, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4]
    for b in product([0xf0, 0xf1, 0xf4, 0xf5, 0xed, 0xe2, 0x41], H4, H4, H4):
        yield bytes(b)


def g_utf8():
    for b in utf8_bad():
        yield td(8, b)
    for b in utf8_bad():
        if len(b) < 3:
            # the same bytes as symbol text of a local symbol table, and as field name and annotation
            lst = td(14, b'\x81\x83' + td(13, b'\x87' + td(11, td(8, b))))
            yield lst + b'\x71\x0a'
            yield lst + td(13, b'\x8a\x11')
            yield lst + b'\xe3\x81\x8a\x11'
    # at every offset of long text
    from .c21 import BAD, PADS
    for b in BAD:
        for n in PADS:
            for m in (0, 1, 14):
                for c in (b'x', b'\xe2\x82\xac'):
                    if m == 1 and n > 300 or n > 9000:
                        continue
                    x = c * n + b + c * m
                    yield td(8, x)
                    yield td(11, b'\x11' + td(8, x))
                    lst = td(14, b'\x81\x83' + td(13, b'\x87' + td(11, td(8, x))))
                    yield lst + b'\x71\x0a'
                    if c == b'x':
                        yield lst + td(13, b'\x8a\x11')
                        yield lst + b'\xe3\x81\x8a\x11'
                        yield td(14, b'\x81\x83' + td(13, b'\x86' + td(11, td(13, b'\x84' + td(8, x) + b'\x85\x21\x01\x88\x21\x02')))) + b'\x71\x0a'


def g_stamps():
    offs = [b'\xc0', b'\x80'] + [varint(n) for n in (1, -1, 60, -60, 1439, -1439, 1440, -1440, 5000)] + [varint(60, False, 3), b'\x40\x80']
    years = [varuint(n) for n in (0, 1, 2, 127, 128, 1999, 2000, 9999, 10000)] + [varuint(2000, 4)]
    mons = [varuint(n) for n in (0, 1, 2, 12, 13)] + [varuint(2, 2)]
    days = [varuint(n) for n in (0, 1, 28, 29, 30, 31, 32)]
    hours = [varuint(n) for n in (0, 11, 23, 24)]
    mins = [varuint(n) for n in (0, 59, 60)]
    secs = [varuint(n) for n in (0, 59, 60)]
    fracs = [b'']
    for e in [b'\x80', b'\x81', b'\xc1', b'\xc2', b'\xc3', b'\xc6', b'\xc7', b'\xc9', b'\x40\xc6', b'\xc0', varint(-64), varint(-30)]:
        for c in [b'', b'\0', b'\0\0', b'\x01', b'\x05', b'\x09', b'\x0a', b'\x63', b'\x64', b'\0\x09', b'\x80', b'\x81', b'\x0f\x42\x3f', b'\x0f\x42\x40', b'\0\x98\x96\x7f', b'\x7f' * 8]:
            fracs.append(e + c)
    for o in offs:
        yield td(6, o)
        for y in years:
            yield td(6, o + y)
            for m in mons:
                yield td(6, o + y + m)
                for d in days:
                    b = o + y + m + d
                    yield td(6, b)
                    for h in hours:
                        if h == hours[0]:
                            yield td(6, b + h)
                        for mi in mins[:1] if m != mons[2] else mins:
                            yield td(6, b + h + mi)
                            if m in (mons[2], mons[3]):
                                for s in secs:
                                    yield td(6, b + h + mi + s)
    base = varuint(2000) + varuint(2) + varuint(29) + varuint(23) + varuint(59)
    for o in offs:
        for s in secs:
            for f in fracs:
                yield td(6, o + base + s + f)
                yield long_td(6, o + base + s + f, 2)


FIELDS = [b'\x84\x11', b'\x85\x10', b'\x80\x11', b'\x00\x84\x11', b'\x8a\x11', b'\x84\x00', b'\x84\x01\xff', b'\x85\x71\x04', b'\x83\xe3\x81\x84\x11', b'\x84\xd2\x85\x11', b'\x84', b'\x84\xd0', b'\x84\xd1\x83\x84\x21\x01', b'\x85\xd1\x80',
          b'\x84\xe0\x01\x00\xea', b'\x84\xf0', b'\x84\xb1\x11', b'\x84\x0f']


def g_structs():
    for n in (1, 2, 3):
        for fs in product(FIELDS, repeat=n):
            b = b''.join(fs)
            yield td(13, b)
            yield b'\xd1' + varuint(len(b)) + b
            if n < 3:
                yield b'\xd1' + varuint(len(b), 2) + b
                yield b'\xd1' + varuint(len(b) + 1) + b
                yield b'\xd1' + varuint(len(b) - 1) + b
                yield b'\xde' + varuint(len(b), 3) + b
                yield td(11, td(13, b) + b'\x11')
                yield td(13, b'\x84' + td(13, b))


FRAGS = [b'', IVM, b'\x00', b'\x01\xe0', b'\x0e\x81\xff', b'\x11', b'\x21\x05', b'\x71\x04', b'\x71\x0a', b'\x71\x0b', b'\x70', b'\x71\x02', b'\xb1\x11', b'\xd2\x8a\x11', b'\xe3\x81\x8a\x11', b'\xe3\x81\x80\x11',
         refbin.td(14, b'\x81\x83' + td(13, b'\x87' + td(11, b'\x81x\x81y'))), refbin.td(14, b'\x81\x83' + td(13, b'\x86\x71\x03\x87' + td(11, b'\x81z'))),
         refbin.td(14, b'\x81\x83\xd0'), b'\xe0\x01\x01\xea', b'\xe0\x01\x00\xeb', b'\xe0', b'\xe4\x81\x84\x71\x02', b'\xe4\x81\x83\x21\x05', b'\x83abc',
         refbin.td(14, b'\x81\x83' + td(13, b'\x87' + td(11, b'\x81w\x0f\x21\x07')))]


def g_streams():
    for n in (1, 2, 3):
        for fs in product(FRAGS, repeat=n):
            yield b''.join(fs)


def g_annots():
    sids = [b'\x80', b'\x81', b'\x84', b'\x89', b'\x8a', b'\x00\x84', b'\x00\x00\x84', b'\x01\x80', b'\x04']
    vals = [b'\x11', b'\x0f', b'\x00', b'\x20', b'\x21\x05', b'\xb0', b'\xb1\x11', b'\xd0', b'\xd2\x84\x11', b'\xe3\x81\x84\x11', b'\x71\x04', b'\xde\x82\x84\x11', b'\x8e\x00\x81a', b'\xe0\x01\x00\xea', b'', b'\x11\x11', b'\xf0',
            b'\x01\xff', b'\x6f', b'\xef', b'\x40', b'\xd1\x82\x84\x11']
    for n in (0, 1, 2, 3):
        for ss in product(sids, repeat=n):
            a = b''.join(ss)
            for v in vals:
                for d in (0, 1, -1):
                    if len(a) + d < 0 or (d and n > 2):
                        continue
                    al = varuint(len(a) + d)
                    body = al + a + v
                    yield td(14, body)
                    if n < 3:
                        yield b'\xee' + varuint(len(body)) + body
                        yield b'\xee' + varuint(len(body), 2) + body
                        yield td(14, varuint(len(a) + d, 2) + a + v)
                        if d == 0:
                            yield td(11, td(14, body) + b'\x11')
                            yield b'\xee' + varuint(len(body) + 1) + body + b'\x11'
                            yield b'\xee' + varuint(max(0, len(body) - 1)) + body


def g_deep():
    """Nesting to 40 with one defect at each depth."""
    for depth in list(range(1, 13)) + [20, 40]:
        for kinds in (b'\xb0', b'\xc0', b'\xd0', b'\xe0', b'\xb0\xd0', b'\xe0\xb0', b'\xc0\xe0\xd0'):
            for core in (b'\x11', b'', b'\x83abc', b'\x00', b'\xf0'):
                for bad_at in range(-1, min(depth, 12)):
                    for delta in (1, -1):
                        v = core
                        for k in range(depth):
                            t = kinds[k % len(kinds)] >> 4
                            if t == 13:
                                v = b'\x84' + v if v else b''
                            elif t == 14:
                                v = b'\x81\x84' + v
                            n = len(v) + (delta if k == bad_at else 0)
                            if n < 0:
                                n = 0
                            v = (bytes([t << 4 | n]) if n < 14 else bytes([t << 4 | 14]) + varuint(n)) + v
                        yield v
                        if bad_at < 0:
                            break


def widen(node, sid, w):
    """Encodings with padded lengths, identifiers and exponents."""
    a, t, p = node
    if a:
        ab = b''.join(varuint(sid(s), w) for s in a)
        return long_td(14, varuint(len(ab), w) + ab + widen(((), t, p), sid, w), w)
    if p is None or t == 'bool' or (t == 'float' and p == 'nan'):
        return refbin.encode(node, sid)
    if t == 'int':
        return long_td(3 if p < 0 else 2, b'\0' * (w - 1) + uint(abs(p)), w)
    if t == 'float':
        return bytes([0x4e]) + varuint(8, w) + bytes.fromhex(p)
    if t == 'decimal':
        sign, c, e = p
        b = c.to_bytes(c.bit_length() // 8 + w, 'big')
        return long_td(5, varint(e, False, w + 1) + bytes([b[0] | sign << 7]) + b[1:], w)
    if t == 'timestamp':
        return long_td(6, refbin.ts_body(p), w)
    if t == 'symbol':
        return td(7, b'\0' * (w - 1) + uint(sid(p)))
    if t == 'string':
        return long_td(8, p.encode('utf-8'), w)
    if t in ('clob', 'blob'):
        return long_td(refbin.TCODE[t], p, w)
    if t == 'struct':
        return long_td(13, b''.join(varuint(sid(f), w) + widen(c, sid, w) for f, c in p), w)
    return long_td(refbin.TCODE[t], b''.join((b'\x00' if w > 1 and k % 5 == 0 else b'') + widen(c, sid, w) for k, c in enumerate(p)), w)


def g_dense():
    """Every dense scalar, in streams of 24, minimally encoded and padded to three widths."""
    from ..values import g_dense as dense
    for v in dense():
        yield refbin.encode_stream([v], ivm=False)
        for w in (1, 2, 4):
            st = refbin.Symtab()
            body = widen(v, st, w)
            yield st.lst() + body


SIZES = list(range(0, 36)) + [62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9001, 16381, 16382, 16383, 16384, 16385, 20000, 65535, 65536, 65537]


def large(n):
    """Documents with one thing of size n."""
    yield td(2, b'\x01' + b'\0' * n) if n < 2000 else b''
    yield td(3, b'\0' * n + b'\x01')
    yield td(2, b'\xa5' * min(n, 1000))
    yield td(5, b'\xc1' + b'\x25' * min(n, 1000))
    yield td(5, varint(n) + b'\x05')
    yield td(5, varint(-n) + b'\x85')
    yield td(6, b'\x80' + varuint(2000) + b'\x81\x81\x80\x80\x80' + varint(-n) + b'\x00' * (n % 7) + b'\x05')
    for t in (8, 9, 10):
        yield td(t, (b'\xe2\x82\xac\xf0\x9f\x98\x80' * (n // 7 + 1))[:n])
        yield td(t, b'z' * n)
        yield td(11, td(t, b'z' * n) + b'\x11')
        yield long_td(t, b'z' * n, 3) + b'\x10'
    if n < 9000:
        yield td(11, b'\x11' * n)
        yield td(12, b'\x71\x04' * n)
        yield td(13, b'\x84\x11\x85\x10' * n)
        yield td(11, b'\x00' * n + b'\x11') + b'\x10'
        yield td(14, varuint(n) + b'\x84' * n + b'\x11')
        yield b'\x11' * n
        yield b'\x00' * n + b'\x11'
        yield IVM * n + b'\x11'
        syms = b''.join(td(8, b's%d' % k) for k in range(n))
        lst = td(14, b'\x81\x83' + td(13, b'\x87' + td(11, syms)))
        for k in (1, 9, 10, 9 + n // 2, 9 + n - 1, 9 + n, 10 + n, 11 + n):
            if k >= 0:
                yield lst + td(7, uint(k))
                yield lst + td(13, varuint(k) + b'\x11')
                yield lst + td(14, varuint(len(varuint(k))) + varuint(k) + td(7, uint(k)))
        yield lst + td(11, b''.join(td(7, uint(10 + k)) for k in range(n)))
        m = min(n, 130)
        yield b''.join(td(14, b'\x81\x83' + td(13, b'\x86\x71\x03\x87' + td(11, td(8, b'q%d' % k)))) + td(7, uint(10 + k // 2)) for k in range(m))
        yield b''.join(td(14, b'\x81\x83' + td(13, b'\x87' + td(11, td(8, b'q%d' % k)))) + b'\x71\x0a' for k in range(m)) + b'\x71\x0b'
        for d in (-1, 0, 1):
            if n + d >= 0:
                yield bytes([0xbe]) + varuint(n + d) + b'\x11' * n
                yield bytes([0xde]) + varuint(2 * n + d) + b'\x84\x11' * n
    yield lst_import(n)


def lst_import(n):
    return td(14, b'\x81\x83' + td(13, b'\x86' + td(11, td(13, b'\x84\x81t\x85\x21\x01\x88' + td(2, uint(n)))) + b'\x87' + td(11, b'\x81x'))) + td(7, uint(10 + n)) + td(13, varuint(10 + n) + b'\x11')


def g_large():
    for n in SIZES:
        for b in large(n):
            yield b


def g_huge():
    from .. import huge
    for n in (65535, 65536, 65537, 2 ** 21 - 1, 2 ** 21):
        for b in huge.binary_values(n):
            yield b + b'\x21\x07'
            yield b[:-1]


def g_wide():
    """Fields with far more bits than they need: lengths, identifiers, numbers of a date, exponents and offsets of 2**k and a little."""
    for k in list(range(5, 72)) + [77, 84, 91, 98, 105, 112, 119, 126, 127, 128, 129, 133, 140, 192, 256, 257]:
        for add in (-1, 0, 1, 2, 3, 5):
            n = 2 ** k + add
            u = varuint(n)
            if k > 24:
                # Lengths that no document has.
                for t in (0, 2, 3, 5, 6, 8, 9, 10, 11, 12, 13, 14):
                    body = {8: b'abcdef', 9: b'abcdef', 11: b'\x11\x11\x10', 12: b'\x11', 13: b'\x84\x11\x85\x11', 14: b'\x81\x84\x11'}.get(t, b'\0' * 4)
                    head = bytes([t << 4 | 14]) + u
                    yield head + body
                    yield td(11, head + body)
                    yield b'\xd1' + u + b'\x84\x11' if t == 13 else td(14, b'\x81\x84' + head + body)
                yield td(14, u + b'\x84\x11')
                yield td(14, u + b'\x84\x85\x11')
                yield b'\xee\x8a' + u + b'\x84\x11' * 3
            # Identifiers.
            yield td(13, u + b'\x11')
            yield td(13, b'\x84\x11' + u + b'\x11')
            yield td(14, varuint(len(u)) + u + b'\x11')
            yield td(14, varuint(len(u) + 1) + b'\x84' + u + b'\x11')
            yield td(7, uint(n))
            yield td(11, td(7, uint(n)))
            lst = td(14, b'\x81\x83' + td(13, b'\x87' + td(11, b'\x81x\x81y')))
            yield lst + td(7, uint(n)) + b'\x71\x0a'
            # Numbers of a timestamp.
            fields = [b'\xc0', b'\x0f\xd0', b'\x82', b'\x83', b'\x84', b'\x85', b'\x86', b'\xc2', b'\x05']
            for j in range(1, 7):
                for last in (j + 1, 7, 9) if j > 1 else (2, 3, 5, 7, 9):
                    if last in (5,) and j < 4 or last > j or j == 1:
                        f = fields[:max(last, 5 if last == 5 else last)]
                        f[j] = u
                        yield td(6, b''.join(f))
            for sign in (False, True):
                v = varint(n, sign)
                yield td(6, v + b''.join(fields[1:7]))
                yield td(6, v + b''.join(fields[1:]))
                if k < 12:
                    yield td(6, b''.join(fields[:7]) + v + b'\x05')
                    yield td(6, b''.join(fields[:7]) + v)
                    yield td(6, b''.join(fields[:7]) + v + b'\x00\x00')
                if k < 60:
                    yield td(5, v + b'\x05')
                    yield td(5, v)
                    yield td(5, v + b'\x80')
            yield td(2, uint(n))
            yield td(3, uint(n))
            yield td(5, b'\xc1' + sint(n))
            yield td(5, b'\xc1' + sint(-n))


GENS = {'wide': g_wide, 'huge': g_huge, 'dense': g_dense, 'large': g_large, 'short': g_short, 't3': g_t3, 't4': g_t4, 't4x': g_t4x, 't5': g_t5, 'wrapped': lambda: g_wrapped(contents1()), 'wrapped2': lambda: g_wrapped(contents2()),
        'scalars': g_scalars, 'utf8': g_utf8, 'stamps': g_stamps, 'structs': g_structs, 'streams': g_streams, 'annots': g_annots, 'deep': g_deep}


def jobs(tier):
    names = ['short', 't3', 't4', 'wrapped', 'scalars', 'utf8', 'stamps', 'structs', 'streams', 'annots', 'deep', 'dense', 'large', 'wide', 'huge']
    n = 24
    if tier == 'thorough':
        names += ['t4x', 't5', 'wrapped2']
        n = 96
    return [('bytes', (g, i, n)) for g in names for i in range(n)]


def cases(kind, args):
    name, i, n = args
    from ..values import shard
    return shard(GENS[name](), i, n)
