# -*- coding: utf-8 -*-
"""C23: the JSON encoder on every value of the enumerations, at every depth, against the documented down-conversion."""
import base64
import io
import json
import struct
from decimal import Decimal

from .. import alpha, refbin, values
from ..harness import Violation
from ..model import ion, bits_float, N, F, L, SX, ST, ann

PID = 'C23'
RULE = ('Every value of the generators (every scalar of the boundary alphabets in every context, pairs, annotations, field names, lengths, nesting to 257, contents of up to 8193 characters and 1030 elements, all trees of up to 4 nodes; thorough: 5 and 6, triples), loaded from reference-encoded binary Ion and from text Ion, '
        'is encoded with json.dumps(cls=IonToJSONEncoder), with json.dump, indented, and inside plain lists and dicts; the JSON text is parsed strictly and compared with the down-conversion of the reference value, type and sign of zero included. '
        'Every code point to U+3000 and around block boundaries as string, symbol and name; every byte in clobs and blobs; every double of an exponent sweep; every decimal exponent -400..400. State = distinct value, transition = encoding.')
ASSUMPTIONS = ['run on CPython: the module refuses to be imported on PyPy', 'names of fields with unknown text are not judged', 'repeated names keep the last value',
               'decimals become the nearest double']


class Undefined(Exception):
    pass


def stamp(p):
    prec, y, mo, d, h, mi, s, frac, off = p
    t = '%04d-%02d-%02d %02d:%02d:%02d' % (y, mo or 1, d or 1, h or 0, mi or 0, s or 0)
    if frac is not None:
        us = frac[0] * 10 ** 6 // 10 ** frac[1]
        if us:
            t += '.%06d' % us
    if off is not None and prec in 'ms':
        t += '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    return t


def down(node):
    a, t, p = node
    if p is None:
        return None
    if t == 'float':
        x = bits_float(p)
        return None if x != x or x in (float('inf'), float('-inf')) else x
    if t == 'decimal':
        x = float(Decimal((p[0], tuple(int(c) for c in str(p[1])), p[2])))
        return None if x in (float('inf'), float('-inf')) else x
    if t == 'timestamp':
        return stamp(p)
    if t == 'symbol':
        return p if isinstance(p, str) else None
    if t == 'clob':
        return p.decode('latin-1')
    if t == 'blob':
        return base64.b64encode(p).decode('ascii')
    if t in ('list', 'sexp'):
        return [down(v) for v in p]
    if t == 'struct':
        out = {}
        for s, v in p:
            if not isinstance(s, str):
                raise Undefined()
            out[s] = down(v)
        return out
    return p            # bool, int, string


def strict(text):
    def const(name):
        raise Violation('not JSON: %s' % name)
    return json.loads(text, parse_constant=const)


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, list):
        return len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
    if isinstance(x, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, float):
        return struct.pack('>d', x) == struct.pack('>d', y)
    return x == y


def check_value(node, rec):
    from amazon.ion.json_encoder import IonToJSONEncoder as E
    try:
        want = down(node)
    except Undefined:
        rec.outcome('not judged')
        return
    i = ion()
    docs = [refbin.encode_stream([node])]
    try:
        one = i.loads(docs[0])
    except Exception as e:
        raise Violation('binary form of %r is not loaded: %r' % (node, e))
    txt = i.dumps(one, binary=False)
    objs = [('from binary', one), ('from text', i.loads(txt)), ('from UTF-8', i.loads(txt.encode('utf-8')))]
    for how, o in objs:
        f = io.StringIO()
        forms = []
        try:
            forms.append(('dumps', json.dumps(o, cls=E), want))
            if how == 'from binary':
                json.dump(o, f, cls=E)
                forms.append(('dump', f.getvalue(), want))
                forms.append(('indented', json.dumps(o, cls=E, indent=1, ensure_ascii=False), want))
                forms.append(('sorted', json.dumps(o, cls=E, sort_keys=True, separators=(',', ':')), want))
                forms.append(('in a list', json.dumps([o, [o]], cls=E), [want, [want]]))
                forms.append(('in a dict', json.dumps({'k': o, 'l': {'m': o}}, cls=E), {'k': want, 'l': {'m': want}}))
                forms.append(('in a list of all values', json.dumps(i.loads(docs[0], single_value=False), cls=E), [want]))
        except Exception as e:
            raise Violation('%s %s: encoding raises %s: %s for %s' % (how, forms and 'after ' + forms[-1][0] or 'dumps', type(e).__name__, e, repr(node)[:300]))
        for name, text, w in forms:
            rec.trans()
            got = strict(text)
            if not same(got, w):
                raise Violation('%s, %s: %s becomes %s instead of %s' % (how, name, repr(node)[:300], text[:300], json.dumps(w)[:300]))
    rec.trace(1)
    rec.state(repr(node))
    rec.outcome(node[1] if node[2] is not None else 'null')


def g_codes(limit):
    from ..checks.c21 import SPECIAL
    step = 8
    cps = [c for c in range(limit) if not 0xd800 <= c < 0xe000]
    for i in range(0, len(cps), step):
        s = ''.join(map(chr, cps[i:i + step]))
        yield L(N('string', s), N('symbol', s), ann(N('int', 1), s), ST((s, N('string', s[::-1]))))
    for c in SPECIAL:
        yield N('string', chr(c))
        yield N('symbol', chr(c) + 'x')
        yield ST((chr(c), N('null')))


def g_bytes():
    for b in range(256):
        for x in (bytes([b]), bytes([b, b]), b'a' + bytes([b, 255 - b])):
            yield N('clob', x)
            yield N('blob', x)
    for k in range(0, 70):
        yield L(N('blob', bytes(range(k))), N('clob', bytes(range(255, 255 - k, -1))))


def g_numbers():
    for e in range(0, 2047):
        for m in (0, 1, 2 ** 52 - 1):
            for s in (0, 1):
                if e % 8 == 0 or e < 4 or e > 2042 or 1010 < e < 1090:
                    yield N('float', '%016x' % (s << 63 | e << 52 | m))
    for e in range(-400, 401):
        for c in (0, 1, 17, 10 ** 17 + 1, 2 ** 53 + 1):
            for s in (0, 1):
                if c < 2 or e % 8 == 0:
                    yield N('decimal', (s, c, e))
    for k in range(0, 4000, 61):
        for d in (-1, 0, 1):
            yield L(N('int', 2 ** k + d), N('int', -2 ** k - d))
    for n in range(-300, 301):
        yield N('int', n)


def g_stamps():
    for off in (None, 0, 1, -1, 59, -59, 60, -60, 61, -61, 330, -480, 1439, -1439):
        for frac in (None, (0, 1), (1, 1), (1, 6), (999999, 6), (123, 3), (1234567, 7), (0, 9)):
            yield N('timestamp', ('s', 2000, 2, 29, 12, 59, 58, frac, off))
        yield N('timestamp', ('m', 1970, 1, 1, 12, 0, None, None, off))
    for y in (1, 99, 999, 1000, 1969, 2038, 9999):
        yield N('timestamp', ('Y', y) + (None,) * 7)
        for m in range(1, 13):
            yield N('timestamp', ('M', y, m) + (None,) * 6)
            yield N('timestamp', ('D', y, m, 28) + (None,) * 5)


def g_annotsq():
    for x in alpha.core():
        for a in alpha.ANNOTS[:13]:
            yield ann(x, *a)
    for x in alpha.TINY:
        yield L(ann(x, 'a', 'b'), ST(('f', ann(x, 'c'))), SX(ann(L(ann(x, 'd')), 'e')))


def g_namesq():
    for s in alpha.SYMS:
        for x in alpha.TINY:
            yield ST((s, x))
        for t in alpha.SYMS[::3]:
            yield ST((s, N('int', 1)), (t, N('symbol', t)), (s, N('int', 2)))


def g_deepq():
    for k, v in enumerate(values.values('deep')):
        if k // 6 < 12 or k // 6 in (19, 39):
            yield v


def g_hugeq():
    for n in (1000, 4097, 8193):
        for c in 'a\u20ac"':
            yield N('string', c * n)
            yield L(N('symbol', c * (n // 2)), ST((c * (n // 3), N('string', c * (n // 2 + 1)))))
        yield N('blob', bytes(range(256)) * (n // 256 + 1))
        yield N('clob', bytes(range(256)) * (n // 256 + 1))
    for n in (300, 1030):
        yield L(*[N('int', k) for k in range(n)])
        yield L(*[ST(('f', N('symbol', 's%d' % k)), ('f', N('bool', k % 2 == 0)), ('g', L())) for k in range(n)])
        yield ST(*[('f%d' % (k % (n - 7)), N('decimal', (0, k, -2))) for k in range(n)])
        yield ST(*[('same', N('int', k)) for k in range(n)])
    for n in (60, 100, 150):
        x = y = N('int', 1)
        for k in range(n):
            x, y = L(x), ST(('a', N('null')), ('f', SX(y) if k % 3 else y, ), ('a', L()))
        yield x
        if n < 120:
            yield y


GENS = {'hugeq': g_hugeq, 'pairsq': lambda: values.shard(values.g_pairs(), 0, 3), 'annotsq': g_annotsq, 'namesq': g_namesq, 'deepq': g_deepq, 'codes': lambda: g_codes(0x3000), 'codes+': lambda: g_codes(0x110000), 'bytes': g_bytes, 'numbers': g_numbers, 'stamps': g_stamps,
        'core3': lambda: g_core3(alpha.TINY)}


def g_core3(c):
    for x in c:
        for y in c:
            for z in c[::2]:
                yield ST(('a', L(x, y)), ('b', SX(z, x)), ('a', ST(('c', y))))


def gen(name):
    if name in GENS:
        return (v for v in GENS[name]() if values.top_ok(v))
    return values.values(name)


QUICK = [('ctx', 10), ('pairsq', 8), ('trees4', 8), ('annotsq', 3), ('namesq', 4), ('deepq', 2), ('codes', 6), ('bytes', 2), ('numbers', 6), ('stamps', 1), ('core3', 3), ('dense', 6), ('hugeq', 12)]
THOROUGH = [('ctx', 16), ('pairs', 48), ('trees4', 24), ('annots', 16), ('names', 32), ('deep', 2), ('codes+', 48), ('bytes', 4), ('numbers', 16), ('stamps', 1), ('core3', 4), ('dense', 6), ('hugeq', 12),
            ('triples', 24), ('trees5', 48), ('lengths', 16)]

KINDS = {'value': check_value}


def jobs(tier):
    out = []
    for name, n in (QUICK if tier == 'quick' else THOROUGH):
        out += values.jobs_of('value', name, n)
    return out


def cases(kind, args):
    name, i, n = args
    return values.shard(gen(name), i, n)
