# -*- coding: utf-8 -*-
"""C06: chunking independence. Every document is run under every schedule of chunks of its bound."""
from itertools import product

from ..harness import Violation
from ..model import N, L, SX, ST, F, ann
from .. import drive as D, alpha, huge, refbin
from ..values import shard
from . import c05

PID = 'C06'
RULE = ('Every document of the families, in each reader mode (text from str, text from UTF-8 bytes, binary; raw and managed), is '
        'run whole and then under every partition into chunks (documents up to the size bound) or under every cut at one and two '
        'positions, all fixed chunk sizes and unit by unit (documents with one part of 64 KiB to 2 MiB: cuts at the limits and long chunks); event sequences, final signal, flush outcome and rejection must be the '
        'same. State = (document, mode), transition = one schedule run to the end; non-trivial = longer than one unit.')
ASSUMPTIONS = ['chunks are non-empty', 'schedules with three or more cuts of longer documents are covered by fixed sizes only (beyond the partition bound)']

ALL = {'quick': 9, 'thorough': 13}
TWO = {'quick': 44, 'thorough': 120}

CAT = {'t': {1: ['t1', 't2'], 2: ['t1', 't2', 't3']}, 'u': {1: ['u1']}}
_cat = None


def cat():
    global _cat
    if _cat is None:
        _cat = D.catalog(CAT)
    return _cat


def schedules(n, full, two):
    if n <= full:
        for c in D.partitions(n):
            yield c
        return
    for c in D.cuts1(n):
        yield c
    if n <= two:
        for c in D.cuts2(n):
            yield c
    for c in D.sizes(n, (1, 2, 3, 4, 5, 7, 8, 16, 64)):
        yield c


def run(payload, rec):
    mode, doc, full, two = payload
    data = D.encode(mode, doc)
    n = len(data)
    c = cat() if mode[1:] else None
    want = D.drive(mode, [data] if n else [], c)
    rec.n_states += 1
    rec.outcome('%s %s' % (mode, '/'.join(want[1])))
    k = 0
    for cuts in schedules(n, full, two):
        k += 1
        got = D.drive(mode, D.cut(data, cuts), c)
        if got != want:
            raise Violation('mode %s: %r cut as %r reports\n%s\nbut whole\n%s' % (mode, data, D.cut(data, cuts), show(got), show(want)))
    if 'error' not in want[1] and n > 1:
        # Nothing is looked into before the end of the input.
        k += 1
        got = D.drive(mode, [data[i:i + 1] for i in range(n)], c, late=True)
        if got != want:
            raise Violation('mode %s: %r, unit by unit and read late, reports\n%s\nbut whole\n%s' % (mode, data, show(got), show(want)))
    rec.trans(k)
    rec.trace(k)


def show(r):
    return '\n'.join('  %r' % (e,) for e in r[0][-6:]) + '\n  end: %s' % (r[1],)


MARKS = (1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 8196)


def big_schedules(n, fine):
    """Cuts of a long document: one cut near either end and at each mark, and every marked chunk size."""
    for k in sorted(set([m for m in MARKS if m < n] + [n - m for m in MARKS[:16] if m < n] + [n // 2])):
        if 0 < k < n:
            yield [k]
            if fine and k + 1 < n:
                yield [k, k + 1]
    ks = [m for m in MARKS if m < n and (n < 700 * m if fine else n < 40 * m)]
    for c in D.sizes(n, ks if fine else ks[::3]):
        yield c


def big(payload, rec):
    mode, doc, fine = payload
    data = D.encode(mode, doc)
    n = len(data)
    c = cat() if mode[1:] else None
    want = D.drive(mode, [data] if n else [], c)
    rec.n_states += 1
    rec.outcome('%s %s' % (mode, '/'.join(want[1])))
    k = 0
    for cuts in big_schedules(n, fine) if fine is not None else huge.cuts(n, mode != 'b'):
        k += 1
        got = D.drive(mode, D.cut(data, cuts), c, late='error' not in want[1] and k % 4 == 3)
        if got != want:
            raise Violation('mode %s: %r (%d units) cut at %r%s reports\n%s\nbut whole\n%s' % (mode, data[:300], n, cuts[:8], '...' if len(cuts) > 8 else '', show(got)[:1500], show(want)[:1500]))
    rec.trans(k)
    rec.trace(k)


KINDS = {'doc': run, 'big': big}

TOK = ['a', 'null', 'null.int', 'true', 'nan', '+inf', '-inf', '0', '-1', '1.5', '2d0', '0x1F', '0b1', '1_0', '2000T', '2000-01-01',
       '2000-01-01T00:00Z', '"s"', "'q'", "''", "'''l'''", '{{}}', '{{"c"}}', '{{YQ==}}', "{{'''c'''}}", '[', ']', '(', ')', '{', '}', ',', ':', '::', '//c\n',
       '/*c*/', '//', '+', '-', '.', '/', '*', '$3', '$ion_1_0', 'f:', 'a::', '"f":', '{}', '[]', '()', '"\\n"', '"\\x41"', '"\\u00e9"',
       '"\\U0001F600"', '"\u00e9"', "'\u20ac'", '"\U0001f600"', '"\\\n"', '"\\\r\n"', "'''\\\r\n'''", "'''\r\n'''", '\r\n', '"', "'", "'''", '{{', '}}', '\u00e9', ' ', '\\']
CTX = [('[', ']'), ('(', ')'), ('{', '}'), ('{g:', '}'), ('z::', ''), ('(1', '2)'), ('[1,', ',2]'), ('', ' a')]


def g_tok1():
    for t in TOK:
        yield t
        for a, b in CTX:
            yield a + t + b
            yield a + t + ' ' + b


def g_tok2():
    for t, u in product(TOK, TOK):
        yield t + u
        if len(t) + len(u) < 9:
            yield t + ' ' + u


def g_tok2c():
    for t, u in product(TOK, TOK):
        for a, b in (('[', ']'), ('(', ')'), ('{', '}')):
            yield a + t + u + b


def g_tok3():
    s = [t for t in TOK if len(t) < 6]
    for t, u, v in product(s, s, s):
        yield t + u + v


def g_chars(n, chars):
    def g():
        for k in range(1, n + 1):
            for t in product(chars, repeat=k):
                yield ''.join(t)
    return g


def g_corpus():
    for d in c05.CORPUS:
        yield d
        yield '[' + d + ']'
    for d in LONG:
        yield d


LONG = ['"' + 'x' * 20 + '\\u20ac' + 'y' * 20 + '"', "'''ab''' // c\n '''cd''' /* e */ '''f'''", '[1, 2.5, {a:b::c, d:[]}, (e + f)]',
        '{{ "clob \\x00 \\" text" }} {{ aGVs bG8= }}', '$ion_1_0 1 $ion_1_0 2 a::$ion_1_0', '\u00e9\u20ac', '"\u00e9\u20ac\U0001f600"', "'\u00e9\u20ac\U0001f600'::'\u00e9'",
        'null.timestamp null.clob null.string null.symbol null.x', '2007-02-23T12:14:33.079-08:00 2007-02-23T20:14:33.079Z', '-123_456.789_012e-10 123d+5',
        '/* a ** / * */ 1 // \r 2 \r\n // 3', "a::'b'::\"c\" :: d", '{a:1,"b":2,\'c\':3,\'\'\'d\'\'\':4,}', '(a.b::c +- <= \'x\' ''' + "'''y''')"]


def g_edits():
    for d in ['a::{c:1,"d":[2]}', "'''a''' '''b''' \"\\n\"", '{{YWJj}} {{"a\\x41"}}', "{{'''a'''}} null.int", '2000-01-01T12:34:56.7+01:00', '(f + -1 .g)', '+inf -0x1F 1.5e-1', "$10 '\\u00e9' \u00e9", '/*c*/ [[],(),{}] //d']:
        for p in range(len(d) + 1):
            yield d[:p]
            yield d[:p] + d[p + 1:]
            for c in ' \n\'"\\/*{}[](),:.+-_$09aeT':
                yield d[:p] + c + d[p:]
                yield d[:p] + c + d[p + 1:]


IVM = refbin.IVM


def g_bin1():
    st = refbin.Symtab()
    for v in alpha.core() + [ann(x, 'a', 'name') for x in alpha.core()] + [L(x) for x in alpha.core()] + [ST(('name', x)) for x in alpha.core()]:
        e = refbin.encode(v, lambda s: 10 if s not in st.ids and s != 0 else (0 if s == 0 else st.ids[s]))
        yield IVM + e
        yield IVM + e + b'\x00\x11'


def g_bin2():
    vs = [b'\x0f', b'\x11', b'\x20', b'\x21\x05', b'\x38\x00\x00\x00\x00\x00\x00\x00\x01', b'\x40', b'\x44\x3f\x80\x00\x00', b'\x50', b'\x52\xc1\x05', b'\x53\x81\x01\x00', b'\x63\xc0\x0f\xd0', b'\x71\x04', b'\x82ab', b'\x82\xc3\xa9', b'\x8e\x82ab', b'\x8e\x00\x82ab',
          b'\xa1a', b'\xa0', b'\xb0', b'\xb3\x21\x01\x11', b'\xbe\x81\x11', b'\xc2\x20\x20', b'\xd3\x84\x21\x01', b'\xd1\x82\x84\x11', b'\xd2\x80\x00', b'\xe3\x81\x84\x11', b'\xe4\x82\x84\x85\x11', b'\xe5\x81\x84\xb2\x11\x10', b'\x00', b'\x02xx', b'\x0e\x82xx', IVM, b'\xbf', b'\xb0\x00', b'\xd0']
    for x in vs:
        for y in vs:
            yield IVM + x + y
    # Broken ones: every one- and two-byte value after the marker, and truncations.
    for a in range(256):
        yield IVM + bytes([a])
        for b in (0, 1, 0x0f, 0x11, 0x21, 0x80, 0x81, 0x82, 0x84, 0x8f, 0xe0, 0xff):
            yield IVM + bytes([a, b])
            yield IVM + bytes([a, b, 0x84, 0x11])
            yield IVM + b'\xb3' + bytes([a, b, 0x11])
    for x in vs:
        for k in range(len(x)):
            yield IVM + x[:k]
    for m in (b'\xe0\x01\x00', b'\xe0\x01\x00\xeb', b'\xe0\x02\x00\xea', b'\xe0', b'\xea\x00\x01\xe0', b'\x11'):
        yield m
        yield IVM + m
        yield IVM + b'\x11' + m + b'\x10'


TABLES_T = ['$ion_symbol_table::{symbols:["x","y"]} $10 $11', '$ion_symbol_table::{imports:[{name:"t",version:1,max_id:2}],symbols:["z"]} $10 $11 $12',
            '$ion_symbol_table::{symbols:["x"]} $10 $ion_symbol_table::{imports:$ion_symbol_table,symbols:["y"]} $10::$11 $12', '$ion_symbol_table::{imports:[{name:"no",version:1,max_id:1}]} $10 {$10:1}',
            '$ion_symbol_table::{symbols:["x"]} {$10:$10::$10} $ion_1_0 $10', '$ion_symbol_table::{imports:[{name:"t",version:3,max_id:4}]} [$10,$13,$14] $15']


def tables_bin():
    x, y = ((), 'string', 'x'), ((), 'string', 'y')
    sy = lambda s: (('$ion_symbol_table',), 'struct', s)
    imp = lambda n, v, m: ((), 'struct', (('name', N('string', n)), ('version', N('int', v)), ('max_id', N('int', m))))
    st = refbin.Symtab()
    use = b'\x71\x0a\x71\x0b'
    lists = [(('symbols', L(x, y)),), (('imports', L(imp('t', 1, 2))), ('symbols', L(x))), (('imports', N('symbol', '$ion_symbol_table')), ('symbols', L(y))), (('imports', L(imp('no', 1, 2))),), (('symbols', L(x, N('int', 1), N('string'))),), ()]
    for a in lists:
        e = refbin.encode(sy(a), st)
        yield IVM + e + use
        yield IVM + e + b'\xd2\x8a\x11\xe3\x81\x8b\x20'
        for b in lists:
            yield IVM + e + b'\x71\x0a' + refbin.encode(sy(b), st) + use
            yield IVM + e + b'\x71\x0a' + IVM + refbin.encode(sy(b), st) + b'\x71\x0a'


def g_tables_t():
    for d in TABLES_T:
        yield d
    for a in TABLES_T:
        for b in TABLES_T:
            yield a + ' ' + b


BIG = [0, 1, 7, 13, 14, 30, 31, 32, 33, 62, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 400, 511, 512, 513]
BIGGER = [1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 9001, 16384, 20000]


def g_big_t(sizes):
    for n in sizes:
        for j, d in enumerate(c05.long_tokens(n)):
            yield d if (j + n) % 3 == 0 else '[' + d + ']' if (j + n) % 3 == 1 else d + ' z'


def g_big_b(sizes):
    from . import c04
    for n in sizes:
        for d in c04.large(n):
            if len(d) < 40000:
                yield IVM + d + b'\x11'


def g_many_t():
    from .. import reftext
    from ..values import g_dense
    for k, v in enumerate(g_dense()):
        yield reftext.render(v, k % 3)


def g_many_b():
    from ..values import g_dense
    for v in g_dense():
        yield refbin.encode_stream([v])


BG = {'big_t': (lambda: g_big_t(BIG), ('s', 't', 'sm')), 'bigger_t': (lambda: g_big_t(BIGGER), ('t', 'sm')), 'big_b': (lambda: g_big_b(BIG), ('b', 'bm')), 'bigger_b': (lambda: g_big_b(BIGGER), ('bm',)),
      'many_t': (g_many_t, ('t', 'sm')), 'many_b': (g_many_b, ('b', 'bm'))}
BQ = {'big_t': 14, 'bigger_t': 97, 'big_b': 9, 'bigger_b': 29, 'many_t': 13, 'many_b': 9}     # quick: every n-th document


def huge_docs(mode, tier):
    q = tier == 'quick'
    if mode[0] == 'b':
        sizes = huge.HUGE + huge.HUGER if not q else (65536, 70001) if mode == 'bm' else (65535, 65536, 2 ** 21 - 1, 2 ** 21)
        for d in huge.binary(sizes):
            yield d
    else:
        for d in huge.text((65537,) if q else huge.HUGE):
            yield d


G = {'tok1': (g_tok1, ('s', 't', 'tm')), 'tok2': (g_tok2, ('s', 't')), 'tok2c': (g_tok2c, ('t',)), 'tok3': (g_tok3, ('t',)),
     'chars3': (g_chars(3, c05.CHARS_S), ('t', 's')), 'chars4': (g_chars(4, c05.CHARS_S), ('t',)), 'corpus': (g_corpus, ('s', 't', 'sm', 'tm')), 'edits': (g_edits, ('t',)),
     'bin1': (g_bin1, ('b', 'bm')), 'bin2': (g_bin2, ('b', 'bm')), 'tables_t': (g_tables_t, ('sm', 'tm')), 'tables_b': (tables_bin, ('bm',))}
QUICK = {'tok1': 8, 'tok2': 24, 'chars3': 16, 'corpus': 24, 'edits': 8, 'bin1': 16, 'bin2': 24, 'tables_t': 16, 'tables_b': 16}


def jobs(tier):
    names = QUICK if tier == 'quick' else dict(QUICK, tok2c=64, tok3=128, chars4=64)
    out = []
    for g, n in names.items():
        for mode in G[g][1]:
            out += [('doc', (g, mode, i, n if tier == 'quick' else 2 * n, tier)) for i in range(n if tier == 'quick' else 2 * n)]
    for g in BG:
        for mode in BG[g][1]:
            out += [('big', (g, mode, i, 8 if tier == 'quick' else 32, tier)) for i in range(8 if tier == 'quick' else 32)]
    out += [('big', ('huge', mode, i, 8, tier)) for mode in ('s', 't', 'b', 'bm') for i in range(8)]
    return out


def cases(kind, args):
    g, mode, i, n, tier = args
    if g == 'huge':
        for d in shard(huge_docs(mode, tier), i, n):
            yield (mode, d, None)
        return
    if kind == 'big':
        # Quick runs take every BQ-th document, a different part for each mode.
        step = BQ[g] if tier == 'quick' else 1
        for d in shard(shard(BG[g][0](), BG[g][1].index(mode) if tier == 'quick' else 0, step), i, n):
            yield (mode, d, tier != 'quick' or g in ('big_t', 'big_b'))
        return
    full, two = ALL[tier], TWO[tier]
    if tier == 'quick' and g == 'edits':
        two = 12
    for d in shard(G[g][0](), i, n):
        yield (mode, d, full, two)
