# -*- coding: utf-8 -*-
"""Enumerations of values shared by the serialisation checks. Every generator is finite and deterministic; a job is
one residue class of one generator, so that the jobs together visit every element exactly once."""
import decimal
from itertools import islice, product

from . import alpha
from .harness import Violation
from .model import N, F, L, SX, ST, ann, CONTAINERS

_SC = None


def scalars():
    global _SC
    if _SC is None:
        _SC = alpha.scalars()
    return _SC


def shard(gen, i, n):
    return islice(gen, i, None, n)


def jobs_of(kind, name, n):
    return [(kind, (name, i, n)) for i in range(n)]


def contexts(x):
    one = N('int', 1)
    sym = N('symbol', 'z')
    yield x
    yield L(x)
    yield SX(x)
    yield ST(('a', x))
    yield L(x, one)
    yield L(sym, x)
    yield SX(x, x)
    yield SX(sym, x, sym)
    yield SX(N('symbol', '+'), x, N('symbol', '-'))
    yield ST(('a', x), ('a', x))
    yield ST(('a', one), ('b', x), ('c', sym))
    yield ST((0, x))
    yield L(L(SX(ST(('q', x)))))
    yield ann(x, 'a')
    yield ann(L(ann(x, 'a', 'b')), 'c')
    yield SX(ann(x, '+'))
    yield ST(('$ion', ann(x, 'name')))


def g_ctx():
    for x in scalars():
        for v in contexts(x):
            yield v


def g_pairs():
    c = alpha.core()
    for x in c:
        for y in c:
            yield L(x, y)
            yield SX(x, y)
            yield ST(('a', x), ('b', y))
            yield ST(('a', x), ('a', y))
            yield SX(ann(x, 'm'), y)


def g_triples():
    c = alpha.TINY + [N('symbol', '+'), N('symbol', ''), N('string', ''), L(N('int', 1)), ST(('a', N('int', 1)))]
    for x in c:
        for y in c:
            for z in c:
                yield SX(x, y, z)
                yield ST(('b', x), ('a', y), ('b', z))
                yield L(x, ann(y, 'k'), z)


def g_annots():
    c = alpha.core()
    for x in c:
        for a in alpha.ANNOTS:
            yield ann(x, *a)
            yield L(ann(x, *a))
            yield ST(('f', ann(x, *a)), ('g', x))
    for s in alpha.SYMS:
        for t in alpha.SYMS:
            yield N('int', 1, s, t)
            yield SX(N('symbol', t, s), N('symbol', s))


def g_names():
    c = [x for x in alpha.core()]
    for s in alpha.SYMS + [0]:
        for x in c:
            yield ST((s, x))
        for t in alpha.SYMS:
            yield ST((s, N('int', 1)), (t, N('symbol', t)))


def g_lengths(limit=300):
    for n in list(range(0, limit)) + [4095, 4096, 8191, 8192, 16381, 16382, 16383, 16384, 16385, 70000]:
        s = N('string', 'x' * n)
        yield s
        yield L(s)
        yield ST(('a', s))
        yield ann(s, 'a')
        yield N('symbol', 'y' * n) if n else N('symbol', '')
        yield N('blob', b'z' * n)
        yield SX(ann(N('clob', b'w' * n), 'a', 'b'), N('int', 1))
        if n < 2000:
            yield L(*[N('int', 1)] * n)
            yield N('list', tuple(N('symbol', 's%d' % i) for i in range(n)))
            yield N('struct', tuple(('f%d' % (i // 2), N('bool', True)) for i in range(n)))
        if n < 300:
            yield N('int', 7, *['t%d' % i for i in range(n)])
            yield L(L(L(s, s), s), s)


def g_huge(text):
    """Long contents and many elements, around the sizes where binary lengths and symbol IDs take one more octet."""
    for n in (65535, 65536) if text else (65535, 65536, 2 ** 21 - 4, 2 ** 21 - 1, 2 ** 21, 2 ** 21 + 1, 2 ** 22):
        yield N('string', 'x' * n)
        yield N('blob', b'z\x00' * (n // 2) + b'y' * (n % 2))
        yield L(ann(N('clob', b'w' * n), 'a'), N('symbol', 'e'))
        yield ST(('b', SX(N('string', '\u00e9' * (n // 2) + 'x' * (n % 2)), N('int', 1))), ('a', N('null')))
    for n in (65536,):
        yield ann(ST(('y' * n, N('symbol', 'z' * n))), 'y' * n, 'a')
    for n in (16360, 16400) if text else (16360, 16384, 16400, 33000):
        yield L(*[N('bool', k % 3 == 0) for k in range(n)])
        yield N('list', tuple(N('symbol', 's%d' % k) for k in range(n)))
        yield N('struct', tuple(('f%d' % k, N('int', k)) for k in range(n)))
        yield L(N('int', 7, *['t%d' % k for k in range(n)]), N('symbol', 't%d' % (n - 1), 't0'))
        yield N('sexp', tuple(L(N('int', k), N('string', 'q')) for k in range(n)))


def dense_scalars():
    """Scalars along every dimension on its own: calendar, clock, offsets, digits, magnitudes, code points, octets."""
    T = lambda *t: N('timestamp', t)
    leap = lambda y: y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    fr = [None, (0, 1), (5, 1), (120, 3), (999999, 6), (1, 9)]
    for y in range(1, 10000):
        if not (y < 1100 or 1850 < y < 2110 or y % 7 == 0 or y > 9900):
            continue
        md = (2, 29) if leap(y) else (12, 31) if y % 2 else (3, 1)
        k = y % 5
        off = None if y in (1, 9999) else (None, 0, 330, -1, -480, 1439)[y % 6]
        yield (T('Y', y, None, None, None, None, None, None, None) if k == 0 else T('M', y, md[0], None, None, None, None, None, None) if k == 1
               else T('D', y, md[0], md[1], None, None, None, None, None) if k == 2 else T('m', y, md[0], md[1], 23, 59, None, None, off) if k == 3
               else T('s', y, md[0], md[1], 0, 0, 1, fr[y % 6 if y % 4 else 3], off))
        if leap(y) and k != 2:
            yield T('D', y, 2, 29, None, None, None, None, None)
    for y in (1999, 2000):
        for m in range(1, 13):
            yield T('M', y, m, None, None, None, None, None, None)
            for d in range(1, (31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1] + 1):
                yield T('D', y, m, d, None, None, None, None, None)
                yield T('m', y, m, d, d % 24, m, None, None, (d - 16) * 45)
    for h in range(24):
        for mi in range(0, 60, 1 if h in (0, 9, 10, 23) else 13):
            yield T('m', 2011, 11, 11, h, mi, None, None, None)
    for k in range(60):
        yield T('s', 2011, 11, 11, 1, k, k, None, k - 30)
    for off in range(-1439, 1440):
        if abs(off) < 130 or off % 60 in (0, 1, 59) or abs(off) > 1370:
            yield T('m', 2010, 6, 15, 12, 0, None, None, off)
    for n in range(1, 25):
        cs = {0, 1, 5, 10 ** (n - 1), 10 ** n - 1, 10 ** n // 2}
        for j in range(n):
            cs.update((10 ** j, 5 * 10 ** j, 12 * 10 ** j, 10 ** j + 1, 10 ** j - 1, 10 ** n - 10 ** j))
        for c in sorted(cs):
            if c < 10 ** n:
                yield T('s', 2010, 6, 15, 12, 0, 59, (c, n), 0)
    for n in (26, 27, 28, 29, 30, 33, 38, 39, 50, 64, 77, 120):
        for c in (0, 1, 10 ** (n - 1), 10 ** n - 1, 10 ** n // 9, 10 ** n // 3 * 2, 10 ** (n - 1) + 1, 10 ** n - 2, 10 ** 6, 10 ** (n - 7) + 5):
            yield T('s', 2010, 6, 15, 12, 0, 59, (c, n), 0)
    for n in range(-300, 301):
        yield N('int', n)
    for k in range(9, 140):
        for d in (-1, 0, 1):
            yield N('int', 2 ** k + d)
            yield N('int', -2 ** k + d)
    for k in range(3, 60):
        for d in (-1, 0, 1):
            yield N('int', (-10) ** k + d)
    for k in range(-1074, 1024, 1):
        yield F(2.0 ** k if k % 2 else -(2.0 ** k))
    for k in range(-323, 309):
        yield F(float('%de%d' % (1 + k % 9, k)))
    for k in range(-300, 301):
        yield F(k / 8)
    for e in list(range(-140, 141)) + [-8192, -8191, 8191, 8192, 2 ** 20, -2 ** 20 - 1]:
        for sign, c in ((0, 0), (1, 1), (0, 127), (1, 128), (0, 12345678901234567890)):
            yield N('decimal', (sign, c, e))
        yield N('decimal', (1, 0, e))
    for k in range(0, 130):
        for d in (-1, 0, 1):
            yield N('decimal', (k % 2, max(0, 2 ** k + d), -(k % 11)))
    for c in list(range(0x300)) + [0x7ff, 0x800, 0x1fff, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff]:
        yield N('string', chr(c))
        yield N('symbol', 'a' + chr(c))
        yield N('string', '1' + chr(c) + '1')
    for c in range(256):
        yield N('clob', bytes([c, 0x31]))
        yield N('blob', bytes([0x31, c] if c % 2 else [c]))
    for n in range(0, 20):
        yield N('blob', bytes(range(250 - n, 250)))


def g_dense():
    """Lists of 24 of them; the ends of each list are annotated, or fields of a struct."""
    part, k = [], 0
    for x in dense_scalars():
        part.append(x)
        if len(part) == 24:
            yield N('list', tuple(part)) if k % 3 else N('struct', tuple(('f%d' % j, y) for j, y in enumerate(part))) if k % 2 else N('sexp', tuple(part), 'a')
            part = []
            k += 1
    yield N('list', tuple(part))


# Decimal contexts that may be in force when the library is called.
AMBIENT = [dict(prec=1), dict(prec=3, rounding=decimal.ROUND_UP, Emax=2, Emin=-2, capitals=0, clamp=1),
           dict(prec=9, traps=[decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Clamped, decimal.FloatOperation, decimal.InvalidOperation])]


def settings(c):
    """Those of a decimal context; the flags only ever accumulate and are nobody's."""
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted((str(k), v) for k, v in c.traps.items()))


def ambient(check):
    """The check under a decimal context of the caller, which is left as it was."""
    def go(payload, rec):
        inner, k = payload
        with decimal.localcontext(decimal.Context(**AMBIENT[k])) as c:
            before = settings(c)
            try:
                check(inner, rec)
            except Violation as e:
                raise Violation('under the decimal context %r: %s' % (AMBIENT[k], e))
            if settings(decimal.getcontext()) != before or settings(c) != before:
                raise Violation('%r: the decimal context has become %r' % (inner, decimal.getcontext()))
    return go


def numbers(n=24):
    """Numbers and timestamps, in lists."""
    part, k = [], 0
    for x in dense_scalars():
        if x[1] in ('decimal', 'timestamp') or x[1] in ('int', 'float') and k % 5 == 0:
            part.append(x)
            if len(part) == n:
                yield N('list', tuple(part))
                part = []
        k += 1
    yield N('list', tuple(part))


def g_deep():
    for d in list(range(1, 68)) + [99, 100, 101, 127, 128, 129, 200, 255, 256, 257]:
        for pat in ('l', 's', 't', 'ls', 'lst', 'ta'):
            v = N('int', d)
            for i in range(d):
                k = pat[i % len(pat)]
                if k == 'l':
                    v = L(v, N('null')) if i % 7 == 3 else L(v)
                elif k == 's':
                    v = SX(N('symbol', 'p'), v)
                elif k == 't':
                    v = ST(('d%d' % (i % 3), v))
                else:
                    v = ann(v, 'a%d' % (i % 2))
            yield v


def g_trees4():
    leaves = [N('null'), N('int', 1), N('symbol', 'a'), N('string', 'b', 'a'), L(), ST()]
    for n in (1, 2, 3, 4):
        for v in alpha.trees(n, leaves, ('a', 'b')):
            yield v


def g_trees5():
    leaves = [N('int', 1), N('symbol', '-', 'a'), L()]
    for v in alpha.trees(5, leaves, ('a', 'b')):
        yield v


def g_trees6():
    leaves = [N('int', 1), N('symbol', 'a')]
    for v in alpha.trees(6, leaves, ('a', 'b')):
        yield v


SYM_CH = ['a', '1', '$', '_', '.', '+', '-', "'", '"', '\\', '\n', ' ', ':', '/', 'T', '\u00e9']
WORDS = ['null', 'true', 'false', 'nan', 'inf', '+inf', '-inf', 'null.int', '$10', '$ion_1_0', '$ion_symbol_table', '2000T', '$0', 'a']
STR_CH = ['a', '0', 'x', 'u', '\\', '"', "'", '\n', '\r', '\x00', '\x07', '\u00e9', '\U0001d11e', '}']


def sym_texts():
    """Every text of up to three characters of SYM_CH, and every one-character edit of the reserved words."""
    out = {}
    for n in (1, 2, 3):
        for t in product(SYM_CH, repeat=n):
            out[''.join(t)] = 1
    for w in WORDS:
        for k in range(len(w) + 1):
            out[w[:k] + w[k + 1:]] = 1
            out[w[:k] + w[k:].upper()] = 1
            out[w[:k]] = 1
            for c in SYM_CH + ['\r', '\t', '\x00', '0', 'l', '\x85', '\u2028', '\x1c']:
                out[w[:k] + c + w[k:]] = 1
                out[w[:k] + c + w[k + 1:]] = 1
        out[w] = 1
    return list(out)


def instants():
    """Groups of timestamps that are one instant (or, without offset, one local time) under many offsets, precisions and fractions."""
    import datetime
    for base, frac in (((2000, 1, 1, 0, 0, 0), 0), ((1899, 12, 31, 23, 30, 0), 0), ((2024, 2, 29, 12, 0, 1), 5)):
        out = []
        for off in (None, 0, 1, -1, 60, -60, 330, 1439, -1439):
            t = datetime.datetime(*base) + datetime.timedelta(minutes=off or 0)
            f = (t.year, t.month, t.day, t.hour, t.minute)
            if not frac and not t.second:
                out.append(('m',) + f + (None, None, off))
                out.append(('s',) + f + (t.second, None, off))
            out += [('s',) + f + (t.second, (frac * 10 ** (d - 1), d), off) for d in (1, 3, 6, 9)]
        if not frac:
            out += [('D',) + base[:3] + (None,) * 5]
            if base[1:3] == (1, 1):
                out += [('Y', base[0]) + (None,) * 7, ('M', base[0], 1) + (None,) * 6]
        yield [N('timestamp', t) for t in out]


def alike():
    """Groups of values that are different but that Python takes for equal, or easily confuses."""
    for g in instants():
        yield g
    D = lambda s, c, e: N('decimal', (s, c, e))
    yield [N('bool', True), N('int', 1), F(1.0), D(0, 1, 0), D(0, 10, -1), D(0, 100, -2), N('string', '1'), N('symbol', '1'), N('symbol', '$1'), N('symbol', 'true'), N('string', 'true'), N('clob', b'1'), N('blob', b'\1')]
    yield [N('bool', False), N('int', 0), F(0.0), F(-0.0), D(0, 0, 0), D(1, 0, 0), D(0, 0, 1), D(0, 0, -1), D(1, 0, -1), D(0, 0, -9), N('symbol', '0'), N('null'), N('bool'), N('int'), N('float'), N('decimal'), N('symbol', 'null'), N('string', 'null')]
    for n, k in ((100, 2), (10 ** 15, 15), (10 ** 22, 22)):
        for s in (0, 1):
            yield [N('int', -n if s else n), F(-float(n) if s else float(n)), D(s, 1, k), D(s, n, 0), D(s, 10, k - 1), D(s, n * 1000, -3)]
    for n in (2 ** 31, 2 ** 53, 2 ** 63, 2 ** 64, 2 ** 100):
        yield [N('int', n), F(float(n)), D(0, n, 0), D(0, n * 10, -1), N('int', n + 1), N('int', n - 1), N('int', -n), F(-float(n)), D(1, n, 0)]
    yield [F(float('nan')), F(float('inf')), F(float('-inf')), N('symbol', 'nan'), N('string', 'nan'), N('symbol', '+inf'), N('string', '+inf'), N('symbol', '-inf'), N('float')]
    yield [F(0.5), D(0, 5, -1), D(0, 50, -2), D(0, 500, -3), D(1, 5, -1), F(-0.5), F(0.1), D(0, 1, -1)]
    for x in ('a', '', 'name', '$10', 'a b', u'\xe9', '-'):
        b = x.encode('utf-8')
        yield [ann(v, *w) for v in (N('string', x), N('symbol', x), N('clob', b), N('blob', b)) for w in ((), ('a',), ('b', 'a'), ('a', 'b'), ('a', 'a'))]
    yield [N(t) for t in ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp', 'struct')] + [
        L(), SX(), ST(), N('string', ''), N('symbol', ''), N('clob', b''), N('blob', b''), N('symbol', 0), L(L()), SX(L()), L(SX()), ST(('', L())), ST((0, L()))]
    ones = [N('int', 1), N('bool', True), F(1.0), D(0, 1, 0), D(0, 10, -1)]
    zeros = [F(0.0), F(-0.0), N('int', 0), D(0, 0, 0), D(1, 0, 0)]
    for g in (ones, zeros):
        yield [c for v in g for c in (L(v), SX(v), ST(('a', v)), ST(('a', v), ('a', v)), ann(L(v), 'a'), L(ann(v, 'a')))]
    yield [ST(*f) for v in (ones[0], ones[2]) for f in ((('a', v), ('b', zeros[2])), (('b', zeros[2]), ('a', v)), (('a', v), ('a', zeros[2])), (('a', zeros[2]), ('a', v)), (('a', zeros[2]), ('b', v)))]


def g_alike():
    """Every ordered pair of a group."""
    for g in alike():
        for x in g:
            for y in g:
                yield L(x, y)
        for x, y in zip(g, g[1:] + g[:1]):
            yield L(*(g + [x, y, x]))
            yield ST(('a', x), ('b', y), ('a', x))
            yield SX(ann(x, 'k'), y, ann(x, 'l'))


def g_symtext():
    for s in sym_texts():
        yield SX(ST((s, N('symbol', s, s)), ('z', N('string', s))))


def g_strtext():
    for n in (1, 2, 3):
        for t in product(STR_CH, repeat=n):
            s = ''.join(t)
            b = s.encode('utf-8')
            yield L(N('string', s), N('clob', b), N('blob', b))


GENS = {'alike': g_alike, 'numbers': numbers, 'hugeb': lambda: g_huge(False), 'huget': lambda: g_huge(True), 'symtext': g_symtext, 'strtext': g_strtext, 'ctx': g_ctx, 'pairs': g_pairs, 'triples': g_triples, 'annots': g_annots, 'names': g_names, 'lengths': g_lengths,
        'lengths+': lambda: g_lengths(1100), 'deep': g_deep, 'dense': g_dense, 'trees4': g_trees4, 'trees5': g_trees5, 'trees6': g_trees6}


def top_ok(node):
    """False for values that Ion defines as system values at the top level of a stream."""
    a, t, p = node
    if t == 'symbol' and p == '$ion_1_0' and not a:
        return False
    if t == 'struct' and a and a[0] == '$ion_symbol_table':
        return False
    return True


def values(name):
    return (v for v in GENS[name]() if top_ok(v))


def g_streams():
    """Short streams of top-level values."""
    c = [v for v in alpha.core() if top_ok(v)]
    yield ()
    for x in c:
        yield (x,)
        for y in c:
            yield (x, y)
            yield (ann(x, 'a'), ann(y, 'c'))
    t = [N('null'), N('symbol', 'a'), N('symbol', '-'), N('string', 'a'), N('int', 5), L(), ST(('a', N('null'))), N('clob', b'a'), N('timestamp', alpha.STAMPS[0])]
    for x in t:
        for y in t:
            for z in t:
                yield (x, y, z)
