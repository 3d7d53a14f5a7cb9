# -*- coding: utf-8 -*-
"""C20: numbers in every format and notation, under every decimal context."""
import decimal
import struct
from decimal import Decimal, Context
from fractions import Fraction
from itertools import product

from .. import alpha, refbin, reftext, values as V
from ..harness import Violation
from ..model import ion, to_py, from_py, canon, Mismatch, N, L, SX, ST, F, fbits, bits_float
from ..refsym import RefError, Unspecified

PID = 'C20'
RULE = ('All integers of an interval and around every power of two and ten, all decimals of a coefficient and exponent grid, floats of every exponent with boundary mantissas, in blocks: written in binary (decoded by the strict independent decoder) and in text '
        '(independent parser; values from exact rationals), loaded back, under the default decimal context; a core under contexts that round, trap everything, or print differently, which must be left as they were. '
        'Pairs of equal numbers of different type or spelling together. Text notations: every string over number characters up to the length, and every combination of sign, base, underscores, fraction and exponent, against the independent parser, with every terminator. Decimal texts around '
        'the midpoint of adjacent floats. Binary: every padded form of every field. State = distinct number or notation, transition = dump or load.')
ASSUMPTIONS = ['integers in text have at most as many decimal digits as the interpreter converts (4300)']


def check(nodes, rec, kinds=('list',)):
    """Dumps and loads a block of numbers."""
    i = ion()
    node = L(*nodes)
    objs = [to_py(n) for n in nodes]
    plain = [plain_of(n) for n in nodes]
    for objects in (objs, plain):
        b = i.dumps(objects, binary=True)
        try:
            got = refbin.decode_stream(b, minimal=True)
        except (RefError, Unspecified) as e:
            got = e
        if got != [node]:
            raise Violation('binary: %s' % diff(node, got))
        t = i.dumps(objects, binary=False)
        try:
            got = reftext.parse_stream(t)
        except (RefError, Unspecified) as e:
            got = e
        if got != [node]:
            raise Violation('text: %s' % diff(node, got))
        for d in (b, t):
            try:
                got = [from_py(i.loads(d))]
            except Mismatch as e:
                got = e
            if got != [node]:
                raise Violation('loading %s: %s' % (type(d).__name__, diff(node, got)))
        rec.trans(4)
    rec.trace()
    rec.n_states += len(nodes)


def plain_of(n):
    t, p = n[1], n[2]
    if t == 'decimal':
        return Decimal((p[0], tuple(int(c) for c in str(p[1])), p[2]))
    return bits_float(p) if t == 'float' else p


def diff(node, got):
    if isinstance(got, list) and len(got) == 1 and got[0][1] == 'list' and len(got[0][2]) == len(node[2]):
        for x, y in zip(node[2], got[0][2]):
            if x != y:
                return '%r becomes %r' % (x, y)
    return '%r becomes %r' % (node, got)


def ints(payload, rec):
    lo, hi = payload
    check([N('int', n) for n in range(lo, hi)], rec)
    rec.outcome('int')


def powers(payload, rec):
    base, k = payload
    check([N('int', s * (base ** k + d)) for d in (-2, -1, 0, 1, 2) for s in (1, -1)] + [N('int', s * (base ** k // 3)) for s in (1, -1)], rec)
    rec.outcome('int')


def decimals(payload, rec):
    coefs, exps = payload
    for e in exps:
        check([N('decimal', (s, c, e)) for c in coefs for s in (0, 1)], rec)
    rec.outcome('decimal')


MANT = sorted(set([0, 1, 2, 3, 2 ** 51, 2 ** 51 - 1, 2 ** 52 - 1, 2 ** 52 - 2, 2 ** 29, 2 ** 28, 2 ** 29 - 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a, 0x3333333333333, 0x921fb54442d18, 0x8000000000001, 0x0000020000000]))


def floats(payload, rec):
    e = payload
    check([N('float', '%016x' % (s << 63 | e << 52 | m)) for m in MANT for s in (0, 1) if e < 2047 or m == 0], rec)
    rec.outcome('float')


def floats32(payload, rec):
    """Binary32 floats in binary input."""
    i = ion()
    e = payload
    body, want = b'', []
    for m in (0, 1, 2 ** 22, 2 ** 22 + 1, 2 ** 23 - 1, 0x555555, 0x2aaaaa):
        for s in (0, 1):
            bits = s << 31 | e << 23 | m
            raw = struct.pack('>I', bits)
            body += b'\x44' + raw
            if e == 255:
                want.append('nan' if m else '%s7ff%s' % ('', '0' * 13) if not s else 'fff' + '0' * 13)
                if m == 0 and not s:
                    want[-1] = '7ff' + '0' * 13
            else:
                v = Fraction(m + (2 ** 23 if e else 0), 2 ** 23) * Fraction(2) ** ((e or 1) - 127)
                want.append(fbits(-float(v) if s else float(v)))
    data = refbin.IVM + refbin.td(11, body)
    got = [fbits(float(x)) for x in i.loads(data)]
    if got != want:
        raise Violation('binary32 exponent %d: %r becomes %r' % (e, want, got))
    rec.trans()
    rec.trace()
    rec.n_states += len(want)
    rec.outcome('float32')


# -- decimal contexts -------------------------------------------------------------------------------------------------

ALL = [decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Clamped, decimal.FloatOperation, decimal.Underflow, decimal.Overflow, decimal.InvalidOperation, decimal.DivisionByZero]


def contexts():
    return [Context(prec=1), Context(prec=1, traps=ALL), Context(prec=1, Emax=0, Emin=0, traps=ALL), Context(capitals=0), Context(prec=3, clamp=1, Emax=5, Emin=-5), Context(prec=2, rounding=decimal.ROUND_UP, traps=[]),
            Context(prec=400, rounding=decimal.ROUND_FLOOR, traps=ALL), Context(prec=5, Emax=999, Emin=-999, rounding=decimal.ROUND_05UP, capitals=0, traps=ALL)]


def in_context(payload, rec):
    """The same outputs and values under every context; the contexts are untouched."""
    i = ion()
    node = payload
    old = decimal.getcontext()
    obj = to_py(node)
    text, binary = i.dumps(obj, binary=False), i.dumps(obj, binary=True)
    for k, c in enumerate(contexts()):
        decimal.setcontext(c)
        mine = decimal.getcontext()
        before = V.settings(mine)
        try:
            try:
                outs = (i.dumps(obj, binary=False), i.dumps(obj, binary=True))
                if outs != (text, binary):
                    raise Violation('%r in context %s is written as %r, otherwise as %r' % (node, c, outs, (text, binary)))
                for d in (text, text.encode('utf-8'), binary):
                    v = i.loads(d)
                    decimal.setcontext(old)
                    ok = canon(from_py(v)) == canon(node)
                    decimal.setcontext(c)
                    if not ok:
                        raise Violation('%r in context %s: %r loads to %r' % (node, c, d, from_py(v)))
                # Fresh objects made in the context.
                if node[1] == 'decimal':
                    v = i.st.IonPyDecimal.from_value(i.core.IonType.DECIMAL, plain_of(node))
                    if v.as_tuple() != obj.as_tuple():
                        raise Violation('%r in context %s: from_value gives %r' % (node, c, v.as_tuple()))
                if not i.ion_equals(obj, i.loads(binary)):
                    raise Violation('%r in context %s: not equal to itself' % (node, c))
            except Violation:
                raise
            except Exception as e:
                raise Violation('%r in context %s: %s: %s' % (node, c, type(e).__name__, e))
            if V.settings(decimal.getcontext()) != before or V.settings(mine) != before:
                raise Violation('%r: context %s becomes %s' % (node, before, mine))
        finally:
            decimal.setcontext(old)
        rec.trans(5)
    rec.trace()
    rec.n_states += 1
    rec.outcome('context')


# -- text notations ---------------------------------------------------------------------------------------------------

def accept(doc):
    try:
        return reftext.parse_stream(doc)
    except RefError:
        return None


def notation(payload, rec):
    """A document against the independent parser."""
    i = ion()
    tok, frames = payload
    for f in frames:
        doc = f % tok if '%' in f else tok
        try:
            want = accept(doc)
        except Unspecified:
            rec.count('unspecified')
            continue
        for src in (doc, doc.encode('utf-8')):
            try:
                got = [canon(from_py(v)) for v in i.loads(src, single_value=False)]
            except Mismatch as e:
                raise Violation('%r: %s' % (src, e))
            except Exception as e:
                got = None
            if got != (want if want is None else [canon(w) for w in want]):
                raise Violation('%r is %r, must be %r' % (src, 'refused' if got is None else got, 'refused' if want is None else want))
            rec.trans()
        rec.trace()
        rec.outcome('refused' if want is None else want[0][1] if want else 'nothing')
    rec.n_states += 1


FRAMES = ('%s', '%s ', '[%s]', '{a:%s}', '(%s)', '%s//', '%s/**/', 'a::%s\n', '%s\t1', '[1,%s,1]', '[%s ]')


def g_strings(n, chars='-01_.edxbF+'):
    for k in range(1, n + 1):
        for s in product(chars, repeat=k):
            yield ''.join(s)


def g_forms():
    ints_ = ['0', '1', '9', '10', '1_0', '123_456', '1_2_3', '12345678901234567890', '00', '01', '1_', '_1', '1__0', '999999999999999999999999999999999999999999', '9007199254740993']
    fracs = ['', '.', '.0', '.5', '.00', '.10', '.1_0', '._1', '.1_', '.0000000000000000000000000000001', '.1__1']
    exps = ['', 'e0', 'E0', 'e1', 'e-1', 'e+1', 'd0', 'D0', 'd-1', 'd+10', 'd-0', 'e-0', 'e400', 'e-400', 'd400', 'd-400', 'd99999', 'd-99999', 'e', 'd', 'e+', 'd-', 'e1_0', 'd1_0', 'e_1', 'e01', 'd007', 'e1.0', 'd1e1', 'e308', 'e-308', 'e-324', 'd1_']
    for s in ('', '-', '+', '--'):
        for a in ints_:
            for f in fracs:
                for e in exps:
                    yield s + a + f + e


def g_radix():
    for s in ('', '-', '+'):
        for p in ('0x', '0X', '00x', '0_x', 'x', '1x'):
            for d in ('', '0', '1', 'f', 'F', 'aB9', '00', '0001', '1_0', 'f_F_0', '_1', '1_', '1__1', 'g', '1g', 'f.', 'f.0', '1e1', '1d1', '1p1', 'ffffffffffffffffffffffffffffffff', '7fffffffffffffff', '8000000000000000', '-1', '1e+1', 'b1'):
                yield s + p + d
        for p in ('0b', '0B', '00b', '0_b', 'b'):
            for d in ('', '0', '1', '10', '00', '0001', '1_0', '1_1_0', '_1', '1_', '1__1', '2', '12', '1.', '1.0', '1e1', '1d1', '1' * 64, '1' + '0' * 64, '-1', 'x1'):
                yield s + p + d


def g_mid():
    """Decimal texts at, just below and just above the midpoint of two adjacent floats."""
    for bits in (0x3ff0000000000000, 0x3ff0000000000001, 0x4340000000000000, 0x4340000000000001, 0x43effffffffffffe, 0x44b52d02c7e14af6, 0x3fb999999999999a, 0x0010000000000000, 0x000fffffffffffff, 0, 1, 0x7feffffffffffffe, 0x7fefffffffffffff, 0x3e112e0be826d695, 0x1d9b2e7d6a3c5f01):
        v = Fraction(bits_float('%016x' % bits))
        if bits == 0x7fefffffffffffff:
            w = Fraction(2) ** 1024
        else:
            w = Fraction(bits_float('%016x' % (bits + 1)))
        mid = (v + w) / 2
        for x in (v, mid, w):
            # Exact decimal expansion: denominators are powers of two.
            k = max(0, x.denominator.bit_length() - 1)
            n = x.numerator * 5 ** k
            for extra in (-1, 0, 1):
                m = n * 10 ** 3 + extra
                if m < 0:
                    continue
                yield '%de%d' % (m, -(k + 3))
                if k + 3 < 40:
                    s = str(m).rjust(k + 4, '0')
                    yield s[:-(k + 3)] + '.' + s[-(k + 3):] + 'e0'


def mid(payload, rec):
    i = ion()
    tok = payload
    m, e = tok.split('e')
    k = 0
    if '.' in m:
        k = len(m) - m.index('.') - 1
    x = Fraction(int(m.replace('.', ''))) * Fraction(10) ** (int(e) - k)
    want = fbits(nearest(x))
    for s in (tok, '-' + tok):
        got = i.loads(s)
        if fbits(abs(float(got))) != want or (fbits(float(got))[0] in '89abcdef') != (s[0] == '-'):
            raise Violation('%s is %s, must be %s' % (s, fbits(float(got)), want))
        rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('rounding')


def nearest(x):
    """The float nearest to a non-negative rational, ties to even, by integer arithmetic."""
    if x == 0:
        return 0.0
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    # 2**e <= x < 2**(e+1)
    q = max(e - 52, -1074)
    y = x / Fraction(2) ** q
    n = y.numerator // y.denominator
    r = y - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 2 ** 53:
        n //= 2
        q += 1
    if q > 971:
        return float('inf')
    return bits_float('%016x' % (n if n < 2 ** 52 else (q + 1075) << 52 | n - 2 ** 52))


# -- binary notations -------------------------------------------------------------------------------------------------

def padded(payload, rec):
    """Every padded form of an integer or a decimal."""
    i = ion()
    n, e = payload
    forms = []
    mag = refbin.uint(abs(n))
    if e is None:
        for pad in (0, 1, 2, 7, 12, 13, 14):
            body = b'\x00' * pad + mag
            if n >= 0:
                forms.append((2, body, N('int', n)))
            if n > 0:
                forms.append((3, body, N('int', -n)))
    else:
        for s in (0, 1):
            for width in (0, 2, 3, 9):
                for pad in (0, 1, 2, 10):
                    co = refbin.sint(abs(n), bool(s))
                    co = (b'\x80' if s else b'\x00') + b'\x00' * (pad - 1) + bytes([co[0] & 0x7f]) + co[1:] if pad and co else b'\x80' * s + b'\x00' * (pad - s if pad else 0) if not co else co
                    sign = 1 if (co and co[0] & 0x80) else 0
                    forms.append((5, refbin.varint(e, width=width) + co, N('decimal', (sign, abs(n), e))))
                    if e == 0:
                        forms.append((5, refbin.varint(0, True, width=width) + co, N('decimal', (sign, abs(n), 0))))
    body, want = b'', []
    for t, b, node in forms:
        body += refbin.td(t, b)
        # Over-long length field.
        body += bytes([t << 4 | 14]) + refbin.varuint(len(b), 3) + b
        want += [node, node]
    got = from_py(i.loads(refbin.IVM + refbin.td(11, body)))
    if got != L(*want):
        raise Violation('padded forms of %r: %s' % (payload, diff(L(*want), [got])))
    rec.trans(len(want))
    rec.trace()
    rec.n_states += 1
    rec.outcome('padded')


def alike(payload, rec):
    for x in payload:
        for y in payload:
            check([x, y], rec)
            check([y, x, y], rec)


KINDS = {'alike': alike, 'ints': ints, 'powers': powers, 'decimals': decimals, 'floats': floats, 'floats32': floats32, 'context': in_context, 'notation': notation, 'mid': mid, 'padded': padded}


def jobs(tier):
    q = tier == 'quick'
    out = []
    for kind, a, n in (('ints', 70000 if q else 2000000, 16 if q else 64), ('powers', 520 if q else 3000, 16 if q else 64), ('decimals', 0 if q else 1, 16 if q else 64), ('floats', 1 if q else 2, 16 if q else 64), ('floats32', 0, 2), ('context', 0, 16), ('strings', 5 if q else 6, 32 if q else 256),
                       ('forms', 0 if q else 1, 24), ('mid', 0, 4), ('padded', 0, 4), ('alike', 0, 4)):
        out += [({'strings': 'notation', 'forms': 'notation'}.get(kind, kind), (kind, a, i, n)) for i in range(n)]
    return out


def gen(kind, a):
    if kind == 'ints':
        return ((lo, lo + 500) for lo in range(-a, a, 500))
    if kind == 'powers':
        return ((base, k) for base in (2, 10, 3) for k in range(0, a if base == 2 else a // 3))
    if kind == 'decimals':
        coefs = sorted(set(list(range(0, 70)) + [c for k in (7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 200) for c in (2 ** k - 1, 2 ** k, 2 ** k + 1)] + [c for k in (2, 5, 10, 27, 28, 29, 40, 100) for c in (10 ** k - 1, 10 ** k, 10 ** k + 1, 5 * 10 ** k)]))
        exps = sorted(set(list(range(-70, 71)) + [s * (2 ** k + d) for k in (13, 20) for d in (-1, 0, 1) for s in (1, -1)] + [s * x for x in (99, 100, 127, 128, 300, 6144, 9999, 999999) for s in (1, -1)]))
        if a:
            exps = sorted(set(exps) | set(range(-1000, 1001)))
        return ((tuple(coefs), (e,)) for e in exps)
    if kind == 'floats':
        return (e for e in range(2048) if a > 1 or e < 70 or e > 1980 or 900 < e < 1150 or e % 3 == 0)
    if kind == 'floats32':
        return iter(range(256))
    if kind == 'context':
        c = [N('int', n) for n in (0, 1, -1, 10 ** 30, -10 ** 30 - 1, 2 ** 200)] + [F(x) for x in alpha.FLOATS] + [N('decimal', d) for d in alpha.DECIMALS] + [N('timestamp', t) for t in alpha.STAMPS]
        c += [N('decimal', (s, 123456789012345678901234567890123456789, e)) for s in (0, 1) for e in (0, -10, -39, -50, 5, 400, -6143, 6144)]
        c += [L(N('decimal', (0, 15, -1)), F(1.5)), ST(('a', N('decimal', (1, 0, -5))), ('b', N('timestamp', alpha.STAMPS[-3])))]
        return iter(c)
    if kind == 'alike':
        groups = ([x for x in g if x[1] in ('int', 'float', 'decimal') and x[2] is not None and not x[0]] for g in V.alike())
        return (g for g in groups if len(g) > 1)
    if kind == 'strings':
        return ((s, ('[%s]', '%s ')) for s in g_strings(a))
    if kind == 'forms':
        fr = FRAMES
        return ((s, (fr + fr)[k % len(fr):k % len(fr) + 4] if not a else fr) for k, s in enumerate(x for g in (g_forms(), g_radix()) for x in g))
    if kind == 'mid':
        return g_mid()
    if kind == 'padded':
        return ((n, e) for n in (0, 1, 2, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 70) for e in (None, 0, 1, -1, 63, 64, -63, -64, -65, 8191, 8192, -8192))


def cases(kind, args):
    name, a, i, n = args
    for k, x in enumerate(gen(name, a)):
        if k % n == i:
            yield x
