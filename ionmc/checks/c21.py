# -*- coding: utf-8 -*-
"""C21: every code point and byte in every position and neighbourhood; every escape."""
from io import BytesIO
from itertools import product

from .. import refbin, reftext
from ..harness import Violation
from ..model import ion, to_py, from_py, to_events, canon, Mismatch, N, L, ST, ann
from ..refsym import RefError, Unspecified

PID = 'C21'
RULE = ('Every Unicode scalar value up to U+1FFFF and around every block boundary beyond (thorough: all 1112064) as a string in runs, and those up to U+3000 and around block boundaries (thorough: all) alone and between other characters as strings, symbols, field names and annotations; every character below U+0180 and every special '
        'one between every two neighbours of a class list, in each position; every byte in clobs and blobs, with the same neighbours; written in text (compact and pretty) and binary, decoded by the independent decoders, loaded back. Text input: each character raw in each '
        'quoting context; every escape letter, all \\\\x and \\\\u escapes, \\\\U boundaries, malformed lengths and digits, newline escapes, followed and preceded by each neighbour, from str and UTF-8. All two-byte UTF-8 sequences and the boundary ones of three and four against a strict '
        'decoder; well- and ill-formed sequences at every offset of text of sizes around powers of two. Every unpaired surrogate in every position is refused. State = distinct document, transition = dump or load.')
ASSUMPTIONS = ['pairs of surrogate escapes are not judged']

POSITIONS = ('string', 'symbol', 'field', 'annot')
SPECIAL = sorted(set(list(range(0x180)) + [0x300, 0x3ff, 0x7ff, 0x800, 0xfff, 0x1000, 0x2027, 0x2028, 0x2029, 0x202e, 0x2060, 0x20ac, 0x3000, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff]))
NEAR = ['', "'", '"', '\\', '0', '9', 'a', 'f', 'x', 'u', 'U', 'n', '\n', '\r', '\t', '\x00', '/', '*', '{', '}', ':', ' ', '\x7f', '\x85', '\u00e9', '\u20ac', '\U0001f600', "''", "'''", '//', '{{', '}}', '\\x41']


def node_of(pos, s):
    one = N('int', 1)
    if pos == 'string':
        return N('string', s)
    if pos == 'symbol':
        return N('symbol', s)
    if pos == 'field':
        return ST((s, one))
    if pos == 'annot':
        return ann(one, s)
    return N(pos, s)


def diff(node, got):
    if isinstance(got, list) and len(got) == 1 and got[0][1] == 'list' and got[0][2] and len(got[0][2]) == len(node[2]):
        for x, y in zip(node[2], got[0][2]):
            if x != y:
                return '%r becomes %r' % (x, y)
    return '%r becomes %r' % (node, str(got)[:300])


def both_ways(nodes, rec, pretty=False):
    i = ion()
    node = L(*nodes)
    obj = to_py(node)
    want = [node]
    outs = [('text', i.dumps(obj, binary=False)), ('binary', i.dumps(obj, binary=True))]
    if pretty:
        outs.append(('pretty', i.dumps(obj, binary=False, indent=' ')))
    for how, data in outs:
        try:
            got = refbin.decode_stream(data, minimal=True) if how == 'binary' else reftext.parse_stream(data)
        except (RefError, Unspecified) as e:
            got = e
        if got != want:
            raise Violation('%s: %s' % (how, diff(node, got)))
        for d in [data] if how == 'binary' else [data, data.encode('utf-8')]:
            try:
                got = [from_py(i.loads(d))]
            except Mismatch as e:
                got = e
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, e)
            if got != want:
                raise Violation('loading %s %s: %s' % (how, type(d).__name__, diff(node, got)))
            rec.trans()
        rec.trans()
    rec.trace()


def points(payload, rec):
    pos, form, lo, hi = payload
    cs = [chr(c) for c in range(lo, hi) if not 0xd800 <= c < 0xe000]
    if not cs:
        return
    if form == 'alone':
        nodes = [node_of(pos, c) for c in cs]
    elif form == 'mid':
        nodes = [node_of(pos, 'x' + c + '1') for c in cs]
    else:
        nodes = [node_of(pos, ''.join(cs[k:k + 32])) for k in range(0, len(cs), 32)]
    both_ways(nodes, rec)
    rec.n_states += len(nodes)
    rec.outcome('%s %s' % (pos, form))


def near(payload, rec):
    pos, c = payload
    c = chr(c)
    nodes = [node_of(pos, x + c + y) for x in NEAR for y in NEAR] + [node_of(pos, c * k) for k in (2, 3, 4, 13, 14)]
    if pos in ('clob', 'blob'):
        nodes = [node_of(pos, bytes(ord(ch) & 0xff for ch in x + c + y)) for x in NEAR for y in NEAR]
    both_ways(nodes, rec, pretty=ord(c) % 7 == 0)
    rec.n_states += len(nodes)
    rec.outcome('near ' + pos)


def block(payload, rec):
    """Lobs of every length with every byte, and all pairs of bytes."""
    t, k = payload
    nodes = [N(t, bytes([k])), N(t, bytes([k]) * 2), N(t, bytes([k]) * 3)] + [N(t, bytes([k, x])) for x in range(256)] + [N(t, bytes((k + y) & 255 for y in range(n))) for n in range(0, 40)]
    both_ways(nodes, rec, pretty=True)
    rec.n_states += len(nodes)
    rec.outcome('bytes ' + t)


# -- text input -------------------------------------------------------------------------------------------------------

def tokens(payload, rec):
    """A document against the independent parser; in one go when it is valid, else each on its own."""
    i = ion()
    docs = payload
    for doc in docs:
        try:
            want = [canon(w) for w in reftext.parse_stream(doc)]
        except RefError:
            want = None
        except Unspecified:
            rec.count('unspecified')
            continue
        for src in (doc, doc.encode('utf-8', 'surrogatepass')):
            try:
                vals = i.loads(src, single_value=False)
                got = [canon(from_py(v)) for v in vals]
            except Mismatch as e:
                raise Violation('%r: %s' % (src, e))
            except Exception as e:
                got = None
            if got != want:
                raise Violation('%r is %r, must be %r' % (src, 'refused' if got is None else got, 'refused' if want is None else want))
            rec.trans()
        rec.trace()
        rec.n_states += 1
        rec.outcome('refused' if want is None else 'accepted')


CONTEXTS = ('"%s" ', "'''%s''' ", "'%s' ", '{{"%s"}} ', "{{'''%s'''}} ", "{'%s':1} ", '{"%s":1} ', "{'''%s''':1} ", "'%s'::1 ", "'''a''' '''%s''' ", "('%s') ")
SHORT = CONTEXTS[:5]


def esc_docs():
    after = ['', '0', 'a', "'", '"', '\\n', '\n', '\\\\', '\u00e9', 'F']
    for c in SPECIAL:
        for ctx in CONTEXTS:
            yield ctx % ('\\' + chr(c))
            yield ctx % ('z\\' + chr(c) + '0')
        for ctx in SHORT:
            for x in after:
                yield ctx % ('\\' + chr(c) + x)
    for c in range(256):
        for fmt in ('\\x%02x', '\\x%02X', '\\u00%02x', '\\U000000%02x'):
            for ctx in CONTEXTS:
                yield ctx % (fmt % c)
                yield ctx % ('1' + (fmt % c) + 'a')
    for n in range(0, 4):
        for ctx in SHORT:
            for t in ('\\x' + '4' * n, '\\u' + '4' * n, '\\U' + '0' * n, '\\x' + '4' * n + 'g', '\\u' + '4' * n + 'G', '\\x' + '4' * n + ' ', '\\x-1', '\\x+1', '\\u 041', '\\U0000 041', '\\x0_1', '\\u00\\u41', '\\U00000041' + '1' * n, '\\u0041' + '4' * n, '\\x\u0664\u0661', '\\u\uff10\uff10\uff14\uff11', '\\U1', '\\X41', '\\N', '\\1', '\\00', '\\012'):
                yield ctx % t
    for v in (0, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff):
        for ctx in CONTEXTS:
            for f in ('\\U%08x', '\\U%08X', 'a\\U%08xb', '\\u%04x' if v < 0x10000 else '\\U%08x', '\\U%08x\\n', '\\U%08x\\U%08x'):
                yield ctx % (f.replace('%', '%%').replace('%%', '%') % ((v,) * f.count('%')))


def raw_docs():
    for c in SPECIAL + [0xd800, 0xdc00, 0xdfff]:
        c = chr(c)
        for ctx in CONTEXTS:
            yield ctx % c
        for ctx in SHORT:
            for x in ('a', '1', '\\', ' ', "'", '"', '\n', '\\\n', '\r', '\\\r', '\\\r\n', '\u20ac'):
                yield ctx % (c + x)
                yield ctx % (x + c)
                yield ctx % (x + c + x)
        # Outside quotes.
        for ctx in ('%s ', 'a%s ', '[%s] ', '[1%s2] ', '{a%s:1} ', '(%s) ', '1%s ', 'null%s ', '"a"%s"b" ', "'''a'''%s'''b''' ", '//%s\n1 ', '/*%s*/1 ', 'a%s::1 ', 'a::%s1 ', '{{%s}} ', '{{%sYQ==}} ', '{{YQ%s==}} ', '{{"a"%s}} '):
            yield ctx % c


def line_docs():
    ends = ['\n', '\r', '\r\n', '\n\r', '\\\n', '\\\r', '\\\r\n', '\\n', '\\r', '\\\\\n', '\\\\\r\n']
    for ctx in SHORT + ("'''a''' '''%s'''",):
        for a in ends:
            for b in ends + ['x']:
                for c in ('', 'y', "'", '"'):
                    yield ctx % (a + b + c)
                    yield ctx % ('p' + a + c + b)


def group(docs, n=64):
    out = []
    for d in docs:
        out.append(d)
        if len(out) == n:
            yield tuple(out)
            out = []
    if out:
        yield tuple(out)


def escapes_u(payload, rec):
    """All \\uXXXX: a string with 64 of them; the surrogates one by one."""
    i = ion()
    lo = payload
    for ctx in ('"%s"', "'''%s'''", "'%s'", "'%s'::1", '{"%s":1}'):
        if 0xd800 <= lo < 0xe000:
            for c in range(lo, lo + 64):
                for t in ('\\u%04x' % c, '\\u%04X ' % c, 'a\\U%08x' % c, '\\u%04x\\u0041' % c if c >= 0xdc00 else '\\u%04xA' % c):
                    for src in (ctx % t, (ctx % t).encode('utf-8')):
                        try:
                            v = i.loads(src)
                            from_py(v)
                        except Exception:
                            rec.trans()
                            continue
                        raise Violation('%r, with an unpaired surrogate, gives %r' % (src, from_py(v)))
            continue
        for f in ('\\u%04x', '\\U%08X'):
            text = ''.join(f % c for c in range(lo, lo + 64))
            want = ''.join(chr(c) for c in range(lo, lo + 64))
            for src in (ctx % text, (ctx % text).encode('utf-8')):
                n = from_py(i.loads(src))
                got = n[0][0] if n[0] else n[2][0][0] if n[1] == 'struct' else n[2]
                if got != want:
                    raise Violation('%r gives %r' % (src, got))
                rec.trans()
    rec.trace()
    rec.n_states += 64
    rec.outcome('\\u')


def high(payload, rec):
    """\\U escapes above the first plane, and the same characters raw."""
    i = ion()
    lo = payload
    want = ''.join(chr(c) for c in range(lo, lo + 256))
    for src in ('"' + ''.join('\\U%08x' % c for c in range(lo, lo + 256)) + '"', "'''" + want + "'''", ('"' + want + '"').encode('utf-8')):
        if str(i.loads(src)) != want:
            raise Violation('%r gives %r' % (src, i.loads(src)))
        rec.trans()
    rec.trace()
    rec.n_states += 256
    rec.outcome('\\U')


# -- UTF-8 -----------------------------------------------------------------------------------------------------------

def utf8(payload, rec):
    """Byte sequences inside strings and symbols of text and binary input against a strict decoder."""
    i = ion()
    for seq in payload:
        try:
            want = seq.decode('utf-8')
        except UnicodeDecodeError:
            want = None
        for how, src in (('string', b'"' + seq + b'"'), ('long', b"'''a" + seq + b"b'''"), ('symbol', b"'" + seq + b"'"), ('binary string', refbin.IVM + refbin.td(8, seq)), ('binary symbol', refbin.IVM + refbin.td(14, b'\x81\x83' + refbin.td(13, b'\x87' + refbin.td(11, refbin.td(8, seq)))) + b'\x71\x0a')):
            if how[:3] != 'bin' and (set(seq) & set(b"\\\"'\n\r") or min(seq) < 0x20):
                continue
            try:
                v = i.loads(src)
                got = from_py(v)[2]
                if how == 'long':
                    got = got[1:-1]
            except Exception as e:
                got = None
            if got != want:
                raise Violation('%s %r gives %r, the strict decoder %r' % (how, src, got, want))
            rec.trans()
        rec.n_states += 1
        rec.outcome('malformed' if want is None else 'well-formed')
    rec.trace()


def g_utf8(full):
    for a in range(256):
        yield bytes([a])
        for b in range(256):
            if a >= 0x80 or b >= 0x80:
                yield bytes([a, b])
    conts = [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]
    for a in list(range(0xe0, 0xf0)) + [0xc1, 0xc2, 0xdf]:
        for b in conts if not full else range(0x70, 0xd0):
            for c in conts:
                yield bytes([a, b, c])
    for a in range(0xf0, 0x100):
        for b in conts:
            for c in (0x7f, 0x80, 0xbf, 0xc0):
                for d in (0x7f, 0x80, 0xbf, 0xc0):
                    yield bytes([a, b, c, d])
                    yield bytes([a, b, c, d, 0x80])


BAD = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc2', b'\xc2\x80', b'\xdf\xbf', b'\xe0\x9f\xbf', b'\xe0\xa0\x80', b'\xe2\x82', b'\xe2\x28\xa1', b'\xed\x9f\xbf', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xed\xa0\xbd\xed\xb8\x80', b'\xee\x80\x80',
       b'\xef\xbb\xbf', b'\xef\xbf\xbf', b'\xf0\x8f\xbf\xbf', b'\xf0\x90\x80\x80', b'\xf0\x9f\x98', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xfe', b'\xff', b'\xc2\x41', b'\xe9a']
PADS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 65536]
FILL = (b'x', '\u00e9'.encode(), '\u20ac'.encode(), '\U0001f600'.encode())


def utf8pad(payload, rec):
    """Well- and ill-formed sequences at every offset of long text."""
    i = ion()
    td = refbin.td
    a, b, fill = payload
    for seq in BAD:
        body = fill * a + seq + fill * b
        try:
            want = body.decode('utf-8')
        except UnicodeDecodeError:
            want = None
        lst = refbin.IVM + td(14, b'\x81\x83' + td(13, b'\x87' + td(11, td(8, body) + td(8, b'other'))))
        srcs = [('string', b'"' + body + b'"'), ('long', b"'''" + body + b"'''"), ('symbol', b"'" + body + b"'"), ('bin string', refbin.IVM + td(8, body)), ('bin nested', refbin.IVM + td(11, b'\x11' + td(8, body))),
                ('bin symbol', lst + b'\x71\x0a'), ('bin field', lst + b'\xd2\x8a\x11'), ('bin annot', lst + b'\xe3\x81\x8a\x11')]
        if len(body) > 300:
            # Long text input is slow to read: the first context only, and nothing beyond 5000 bytes.
            srcs = srcs[:1] * (b == 0 and len(body) < 5000) + srcs[3:]
        if len(body) < 80:
            srcs += [('field', b"{'" + body + b"':1}"), ('annot', b"'" + body + b"'::1"), ('long field', b"{'''" + body + b"''':1}"), ('comment', b'//' + body + b'\n"ok"')]
        for how, src in srcs:
            if how == 'comment' and want is None:
                continue
            w = want if how != 'comment' else 'ok'
            try:
                n = from_py(i.loads(src))
                got = n[2][0][0] if 'field' in how else n[0][0] if 'annot' in how else n[2][1][2] if 'nested' in how else n[2]
            except Exception as e:
                got = None
            if got != w:
                raise Violation('%s with %r after %d and before %d of %r gives %r, the strict decoder %r' % (how, seq, a, b, fill, str(got)[:200], str(w)[:200]))
            rec.trans()
        rec.n_states += 1
        rec.outcome('malformed' if want is None else 'well-formed')
    rec.trace()


# -- surrogates in values --------------------------------------------------------------------------------------------

def surrogates(payload, rec):
    """Unpaired surrogates in values to write, and in text to read, are refused."""
    i = ion()
    T = i.core.IonType
    for c in payload:
        for s in (chr(c), 'a' + chr(c), chr(c) + 'a', chr(c) + chr(c), '\U0001f600' + chr(c)):
            objs = [s, i.st.IonPyText.from_value(T.STRING, s), i.sym.SymbolToken(s, None), i.st.IonPySymbol.from_value(T.SYMBOL, i.sym.SymbolToken(s, None)), {s: 1}, i.st.IonPyInt.from_value(T.INT, 1, (s,)), [[s]]]
            for o in objs:
                for binary in (True, False):
                    try:
                        out = i.dumps(o, binary=binary)
                    except Exception:
                        rec.trans()
                        continue
                    raise Violation('%r, with an unpaired surrogate, is written as %r' % (o, out))
            for ctx in ('"%s"', "'%s'", "'''%s'''", "{'%s':1}", "'%s'::1", '%s', '{{"%s"}}'):
                try:
                    v = i.loads(ctx % s)
                    got = from_py(v)
                except Exception:
                    rec.trans()
                    continue
                raise Violation('%r, with an unpaired surrogate, gives %r' % (ctx % s, got))
    rec.trace()
    rec.n_states += len(payload)
    rec.outcome('surrogate')


KINDS = {'points': points, 'near': near, 'block': block, 'tokens': tokens, 'escapes_u': escapes_u, 'high': high, 'utf8': utf8, 'utf8pad': utf8pad, 'surrogates': surrogates}


def boundary(lo, hi):
    return lo < 0x3000 or lo & 0xfff == 0 or hi & 0xfff == 0 or lo & 0xffff == 0xfe00


def gen(name, a):
    q = a == 'quick'
    if name.startswith('points'):
        for lo in range(0, 0x110000, 256):
            for pos in POSITIONS:
                for form in ('alone', 'mid', 'run'):
                    if not q or boundary(lo, lo + 256) or (pos == 'string' and form == 'run' and lo < 0x20000):
                        yield pos, form, lo, lo + 256
    elif name == 'near':
        for c in SPECIAL:
            for pos in POSITIONS:
                if not q or c < 0x80 or pos == 'string' and (c < 0xa0 or c > 0x17f or c % 4 == 0) or c > 0x17f and pos == 'symbol':
                    yield pos, c
        for c in range(256):
            for pos in ('clob', 'blob'):
                if not q or pos == 'clob' or c % 8 == 0:
                    yield pos, c
    elif name == 'block':
        for t in ('clob', 'blob'):
            for k in range(256):
                yield t, k
    elif name == 'esc':
        for g in group(esc_docs()):
            yield g
    elif name == 'raw':
        for g in group(raw_docs()):
            yield g
    elif name == 'line':
        for g in group(line_docs()):
            yield g
    elif name == 'escapes_u':
        for lo in range(0, 0x10000, 64):
            if lo != 0xd7c0 or True:
                yield lo
    elif name == 'high':
        for lo in range(0x10000, 0x110000, 256):
            if not q or lo & 0xf00 == 0:
                yield lo
    elif name == 'utf8':
        for g in group(g_utf8(not q), 256):
            yield g
    elif name == 'utf8pad':
        for a in PADS:
            for b in PADS if not q else (0, 14):
                for f in FILL if not q or a + b < 20 else FILL[:1]:
                    yield a, b, f
    else:
        for lo in range(0xd800, 0xe000, 16):
            yield tuple(range(lo, lo + (16 if not q or lo in (0xd800, 0xdbf0, 0xdc00, 0xdff0) else 1)))


def jobs(tier):
    out = []
    for name, n in (('points', 32), ('near', 24), ('block', 16), ('esc', 16), ('raw', 16), ('line', 2), ('escapes_u', 8), ('high', 8), ('utf8', 16), ('utf8pad', 16), ('surrogates', 4)):
        if tier != 'quick':
            n *= 2
        out += [({'esc': 'tokens', 'raw': 'tokens', 'line': 'tokens'}.get(name, name), (name, tier, i, n)) for i in range(n)]
    return out


def cases(kind, args):
    name, a, i, n = args
    for k, x in enumerate(gen(name, a)):
        if k % n == i:
            yield x
