# -*- coding: utf-8 -*-
"""Reference codec for Ion 1.0 binary, written from the specification and independent of amazon.ion."""
import datetime
import struct

from .refsym import Context, RefError, Unspecified
from .model import fbits

IVM = b'\xe0\x01\x00\xea'
TCODE = {'null': 0, 'bool': 1, 'int': 2, 'float': 4, 'decimal': 5, 'timestamp': 6, 'symbol': 7, 'string': 8,
         'clob': 9, 'blob': 10, 'list': 11, 'sexp': 12, 'struct': 13}


# ---- primitive encodings ---------------------------------------------------------------------------------------

def uint(n):
    return b'' if n == 0 else n.to_bytes((n.bit_length() + 7) // 8, 'big')


def sint(n, neg=False):
    """Int field; neg selects negative zero for n == 0. Empty for positive zero."""
    if n < 0:
        neg = True
        n = -n
    if n == 0 and not neg:
        return b''
    size = n.bit_length() // 8 + 1
    b = bytearray(n.to_bytes(size, 'big'))
    if neg:
        b[0] |= 0x80
    return bytes(b)


def varuint(n, width=0):
    out = [0x80 | (n & 0x7f)]
    n >>= 7
    while n:
        out.append(n & 0x7f)
        n >>= 7
    while len(out) < width:
        out.append(0)
    return bytes(reversed(out))


def varint(n, neg=False, width=0):
    if n < 0:
        neg = True
        n = -n
    groups = []
    m = n
    while True:
        groups.append(m & 0x7f)
        m >>= 7
        if not m:
            break
    if groups[-1] & 0x40:
        groups.append(0)
    while len(groups) < width:
        groups.append(0)
    groups.reverse()
    if neg:
        groups[0] |= 0x40
    groups[-1] |= 0x80
    return bytes(groups)


def td(t, body):
    if len(body) < 14:
        return bytes([t << 4 | len(body)]) + body
    return bytes([t << 4 | 14]) + varuint(len(body)) + body


def ts_body(p):
    prec, y, mo, d, h, mi, s, frac, off = p
    k = 'YMDms'.index(prec)
    if k >= 3 and off is not None:
        u = datetime.datetime(y, mo, d, h, mi) - datetime.timedelta(minutes=off)
        y, mo, d, h, mi = u.year, u.month, u.day, u.hour, u.minute
    b = varint(off) if off is not None and k >= 3 else b'\xc0'
    b += varuint(y)
    if k >= 1:
        b += varuint(mo)
    if k >= 2:
        b += varuint(d)
    if k >= 3:
        b += varuint(h) + varuint(mi)
    if k >= 4:
        b += varuint(s)
        if frac is not None:
            b += varint(-frac[1]) + sint(frac[0])
    return b


def encode(node, sid):
    """sid: function from sym to SID."""
    a, t, p = node
    if p is None:
        v = bytes([TCODE[t] << 4 | 15])
    elif t == 'bool':
        v = b'\x11' if p else b'\x10'
    elif t == 'int':
        v = td(3 if p < 0 else 2, uint(abs(p)))
    elif t == 'float':
        if p == 'nan':
            v = b'\x48\x7f\xf8\0\0\0\0\0\0'
        elif p == '0' * 16:
            v = b'\x40'
        else:
            v = b'\x48' + bytes.fromhex(p)
    elif t == 'decimal':
        if p == (0, 0, 0):
            v = b'\x50'
        else:
            v = td(5, varint(p[2]) + sint(p[1], p[0] == 1))
    elif t == 'timestamp':
        v = td(6, ts_body(p))
    elif t == 'symbol':
        v = td(7, uint(sid(p)))
    elif t == 'string':
        v = td(8, p.encode('utf-8'))
    elif t in ('clob', 'blob'):
        v = td(TCODE[t], p)
    elif t in ('list', 'sexp'):
        v = td(TCODE[t], b''.join(encode(c, sid) for c in p))
    else:
        body = b''.join(varuint(sid(f)) + encode(c, sid) for f, c in p)
        if len(body) == 1:
            raise AssertionError
        v = td(13, body) if len(body) != 1 else None
    if a:
        ab = b''.join(varuint(sid(s)) for s in a)
        v = td(14, varuint(len(ab)) + ab + v)
    return v


class Symtab(object):
    """Assigns SIDs while encoding; lst() renders the needed local symbol table."""

    def __init__(self, imports=()):
        from .refsym import SYSTEM
        self.ids = {}
        n = 0
        for s in SYSTEM:
            n += 1
            self.ids[s] = n
        self.imports = imports
        for name, version, texts in imports:
            for s in texts:
                n += 1
                if s is not None:
                    self.ids.setdefault(s, n)
        self.n = n
        self.local = []

    def __call__(self, s):
        if s == 0:
            return 0
        if isinstance(s, tuple) and s[0] == '$':
            return s[1]
        if s not in self.ids:
            self.n += 1
            self.ids[s] = self.n
            self.local.append(s)
        return self.ids[s]

    def lst(self):
        if not self.local and not self.imports:
            return b''
        body = b''
        if self.imports:
            imps = b''
            for name, version, texts in self.imports:
                imps += td(13, b'\x84' + encode(((), 'string', name), self) + b'\x85' +
                           encode(((), 'int', version), self) + b'\x88' + encode(((), 'int', len(texts)), self))
            body += b'\x86' + td(11, imps)
        if self.local:
            body += b'\x87' + td(11, b''.join(encode(((), 'string', s), self) for s in self.local))
        return td(14, b'\x81\x83' + td(13, body))


def encode_stream(nodes, imports=(), ivm=True):
    st = Symtab(imports)
    body = b''.join(encode(n, st) for n in nodes)
    return (IVM if ivm else b'') + st.lst() + body


# ---- decoder ---------------------------------------------------------------------------------------------------

NOP = object()


class Decoder(object):
    """Raw decoder: syms are ('$', sid). strict=True adds requirements put on a conforming *writer* of minimal form."""

    def __init__(self, data, minimal=False):
        self.b = data
        self.minimal = minimal

    def varuint(self, pos, end):
        n = 0
        start = pos
        while True:
            if pos >= end:
                raise RefError('VarUInt overruns at %d' % pos)
            c = self.b[pos]
            pos += 1
            n = n << 7 | (c & 0x7f)
            if c & 0x80:
                break
        if self.minimal and pos - start > 1 and self.b[start] == 0:
            raise RefError('over-long VarUInt at %d' % start)
        return n, pos

    def varint(self, pos, end):
        """(magnitude, negative, pos)"""
        if pos >= end:
            raise RefError('VarInt overruns at %d' % pos)
        start = pos
        c = self.b[pos]
        pos += 1
        neg = bool(c & 0x40)
        n = c & 0x3f
        while not c & 0x80:
            if pos >= end:
                raise RefError('VarInt overruns at %d' % pos)
            c = self.b[pos]
            pos += 1
            n = n << 7 | (c & 0x7f)
        if self.minimal and pos - start > 1 and not self.b[start] & 0x3f and not self.b[start + 1] & 0x40:
            raise RefError('over-long VarInt at %d' % start)
        return n, neg, pos

    @staticmethod
    def uint(b):
        return int.from_bytes(b, 'big')

    def int_(self, b):
        if not b:
            return 0, False
        if self.minimal and len(b) > 1 and not b[0] & 0x7f and not b[1] & 0x80:
            raise RefError('over-long Int')
        return int.from_bytes(bytes([b[0] & 0x7f]) + b[1:], 'big'), bool(b[0] & 0x80)

    def value(self, pos, end, annotated=False):
        """-> (node or NOP, pos)"""
        if pos >= end:
            raise RefError('value expected at %d' % pos)
        start = pos
        td_ = self.b[pos]
        pos += 1
        t, l = td_ >> 4, td_ & 15
        if t == 15:
            raise RefError('reserved type descriptor')
        if t == 1:
            if l == 15:
                return ((), 'bool', None), pos
            if l > 1:
                raise RefError('bool descriptor')
            return ((), 'bool', l == 1), pos
        if t == 14 and l == 15:
            raise RefError('null annotation')
        if l == 15:
            name = ('null', None, 'int', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob',
                    'list', 'sexp', 'struct')[t]
            if self.minimal and t == 3:
                raise RefError('null.int as 3F')
            return ((), name, None), pos
        ordered = False
        if t == 13 and l == 1:
            ordered = True
            l, pos = self.varuint(pos, end)
            if l == 0:
                raise RefError('empty ordered struct')
        elif l == 14:
            l, pos = self.varuint(pos, end)
            if self.minimal and l < 14 and t != 13:     # a struct may have the long form
                raise RefError('over-long length at %d' % start)
        stop = pos + l
        if stop > end:
            raise RefError('length overruns at %d' % start)
        body = self.b[pos:stop]
        if t == 0:
            if annotated:
                raise RefError('annotated padding')
            if self.minimal:
                raise RefError('padding written')
            return NOP, stop
        if t in (2, 3):
            n = self.uint(body)
            if t == 3:
                if n == 0:
                    raise RefError('negative zero int')
                n = -n
            if self.minimal and body[:1] == b'\0':
                raise RefError('over-long int')
            return ((), 'int', n), stop
        if t == 4:
            if td_ & 15 == 14:
                raise Unspecified('float with a separate length field')
            if l == 0:
                return ((), 'float', '0' * 16), stop
            if l == 4:
                return ((), 'float', fbits(struct.unpack('>f', body)[0])), stop
            if l == 8:
                return ((), 'float', fbits(struct.unpack('>d', body)[0])), stop
            raise RefError('float length')
        if t == 5:
            if l == 0:
                return ((), 'decimal', (0, 0, 0)), stop
            e, neg, p = self.varint(pos, stop)
            if neg and e == 0:
                raise Unspecified('negative zero exponent')
            c, cneg = self.int_(self.b[p:stop])
            return ((), 'decimal', (1 if cneg else 0, c, -e if neg else e)), stop
        if t == 6:
            return ((), 'timestamp', self.timestamp(pos, stop)), stop
        if t == 7:
            if self.minimal and body[:1] == b'\0':
                raise RefError('over-long sid')
            return ((), 'symbol', ('$', self.uint(body))), stop
        if t == 8:
            try:
                return ((), 'string', body.decode('utf-8')), stop
            except UnicodeDecodeError:
                raise RefError('UTF-8')
        if t in (9, 10):
            return ((), 'clob' if t == 9 else 'blob', bytes(body)), stop
        if t in (11, 12):
            items = []
            while pos < stop:
                v, pos = self.value(pos, stop)
                if v is not NOP:
                    items.append(v)
            return ((), 'list' if t == 11 else 'sexp', tuple(items)), stop
        if t == 13:
            fields = []
            last = -1
            while pos < stop:
                f, pos = self.varuint(pos, stop)
                v, pos = self.value(pos, stop)
                if ordered and f < last:
                    raise Unspecified('field order')
                last = f
                if v is not NOP:
                    fields.append((('$', f), v))
            return ((), 'struct', tuple(fields)), stop
        # t == 14
        if annotated:
            raise RefError('nested annotation wrapper')
        if l < 3:
            raise RefError('annotation wrapper length %d' % l)
        alen, pos = self.varuint(pos, stop)
        if alen == 0:
            raise RefError('empty annotations')
        aend = pos + alen
        if aend >= stop:
            raise RefError('annotation length overruns')
        annots = []
        while pos < aend:
            s, pos = self.varuint(pos, aend)
            annots.append(('$', s))
        v, pos = self.value(pos, stop, True)
        if pos != stop:
            raise RefError('annotation wrapper length mismatch')
        return (tuple(annots),) + v[1:], stop

    def timestamp(self, pos, stop):
        off, neg, pos = self.varint(pos, stop)
        if neg:
            off = None if off == 0 else -off
        parts = []
        while pos < stop and len(parts) < 6:
            n, pos = self.varuint(pos, stop)
            parts.append(n)
        if not parts or len(parts) == 4:
            raise RefError('timestamp fields')
        frac = None
        if pos < stop:
            e, eneg, pos = self.varint(pos, stop)
            if eneg and e == 0:
                raise Unspecified('negative zero fraction exponent')
            e = -e if eneg else e
            c, cneg = self.int_(self.b[pos:stop])
            if cneg:
                if c == 0:
                    raise Unspecified('negative zero fraction')
                raise RefError('negative fraction')
            if e >= 0:
                if c:
                    raise RefError('fraction >= 1')
            else:
                if c >= 10 ** -e:
                    raise RefError('fraction >= 1')
                frac = (c, -e)
        if off is not None and abs(off) >= 1440:
            raise RefError('offset')
        y = parts[0]
        if not 1 <= y <= 9999:
            raise RefError('year')
        f = parts + [1, 1, 0, 0, 0][len(parts) - 1:]
        try:
            dt = datetime.datetime(*f)
        except ValueError as e:
            raise RefError(str(e))
        prec = 'YMD-ms'[len(parts) - 1]
        if prec in 'YMD':
            if off is not None:
                raise Unspecified('offset with date precision')
        elif off:
            try:
                dt += datetime.timedelta(minutes=off)
            except OverflowError:
                raise Unspecified('local year out of range')
        k = 'YMDms'.index(prec)
        return (prec, dt.year, dt.month if k >= 1 else None, dt.day if k >= 2 else None, dt.hour if k >= 3 else None,
                dt.minute if k >= 3 else None, dt.second if k >= 4 else None, frac, off if k >= 3 else None)


def decode_raw(data, minimal=False):
    """-> list of raw top-level nodes and 'IVM' marks."""
    d = Decoder(data, minimal)
    pos, end = 0, len(data)
    out = []
    if data[:4] != IVM:
        raise RefError('no version marker')
    while pos < end:
        if data[pos] == 0xE0:
            if end - pos < 4:
                raise RefError('short version marker')
            if data[pos:pos + 4] != IVM:
                raise RefError('version marker %r' % data[pos:pos + 4])
            out.append('IVM')
            pos += 4
            continue
        v, pos = d.value(pos, end)
        if v is not NOP:
            out.append(v)
    return out


def decode_stream(data, catalog=None, minimal=False):
    """-> list of resolved user nodes. Raises RefError / Unspecified."""
    ctx = Context(catalog)
    out = []
    for v in decode_raw(data, minimal):
        if v == 'IVM':
            ctx.reset()
        else:
            ctx.top_level(v, out)
    return out
