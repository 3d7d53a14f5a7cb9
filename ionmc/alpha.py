import itertools
# -*- coding: utf-8 -*-
"""Boundary-rich alphabets of values (nodes) and symbols."""
from .model import N, F, L, SX, ST, TYPES, ann

SYMS = ['a', 'name', '$ion', '', 'null', 'true', 'nan', 'null.int', '$10', '$', '$a', '+', '-', '+inf', '-inf', '::', '.', '//',
        '/*', '1', '-1', '1d0', '2000T', "'", '"', '\\', 'a b', 'a\nb', "'''", '\u00e9', '\u20ac', '\U0001f600',
        '$ion_1_0', '$ion_symbol_table', 'A9_z$', '\x00', '\x7f', ' ', '{', '}', ']', ')', ',', '{{', 'false', 'inf',
        'imports', 'symbols', 'max_id', 'version', '$0', '$99', '$ion_2_0', '$ion_1_1', '\r', '\t', '\x85', '\u2028',
        'abcdefghijklmno', '<=', '=>a', 'a+', '0', '_', 'T', '\ufeff', '\u0080', '!']

INTS = sorted(set(
    [0, 1, -1, 9, 10, 63, 64, -63, -64, -65, 99, 2000, 31, 32, -31, -32, -33] +
    [s * (2 ** k + d) for k in (6, 7, 8, 13, 14, 15, 16, 21, 24, 31, 32, 48, 53, 55, 56, 62, 63, 64, 103, 104, 111, 112, 120,
                                128, 1000)
     for d in (-1, 0, 1) for s in (1, -1)]))

FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 1e300, -1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
          float('inf'), float('-inf'), float('nan'), 1e16, 123456789012345680.0, 1e22, 1e-7, 3.141592653589793, 100.0,
          1e15, 123456.0, 4.35, 1e-5, 2.0 ** 53, 3.4028234663852886e38]

DECIMALS = [(s, c, e) for s in (0, 1) for c in (0, 1, 10, 127, 128, 255, 256, 32767, 32768, 10 ** 17, 2 ** 64 - 1, 10 ** 29 + 7)
            for e in (0, 1, -1, 2, -2, -5, -7, 63, 64, -63, -64, -65, 300, -300, 8192, -8191, -8192)]

STAMPS = [
    ('Y', 2000, None, None, None, None, None, None, None),
    ('Y', 1, None, None, None, None, None, None, None),
    ('Y', 9999, None, None, None, None, None, None, None),
    ('M', 2000, 2, None, None, None, None, None, None),
    ('M', 1999, 12, None, None, None, None, None, None),
    ('D', 2000, 2, 29, None, None, None, None, None),
    ('D', 1, 1, 1, None, None, None, None, None),
    ('D', 9999, 12, 31, None, None, None, None, None),
    ('m', 2000, 1, 1, 0, 0, None, None, None),
    ('m', 2000, 1, 1, 0, 0, None, None, 0),
    ('m', 2000, 1, 1, 0, 0, None, None, 1),
    ('m', 2000, 1, 1, 0, 0, None, None, -1),
    ('m', 1999, 12, 31, 23, 59, None, None, -60),
    ('m', 2000, 2, 29, 12, 30, None, None, 1439),
    ('m', 2000, 3, 1, 12, 30, None, None, -1439),
    ('m', 2000, 3, 1, 0, 0, None, None, 60),
    ('s', 2000, 1, 1, 0, 0, 0, None, None),
    ('s', 2000, 1, 1, 0, 0, 0, None, 0),
    ('s', 2019, 12, 31, 23, 59, 59, None, -480),
    ('s', 2019, 1, 1, 0, 0, 59, None, 330),
    ('s', 2000, 1, 1, 0, 0, 0, (0, 1), 0),
    ('s', 2000, 1, 1, 0, 0, 0, (0, 3), None),
    ('s', 2000, 1, 1, 1, 2, 3, (100, 3), 0),
    ('s', 2000, 1, 1, 1, 2, 3, (1, 1), -1),
    ('s', 2000, 1, 1, 1, 2, 3, (1, 6), 64),
    ('s', 2000, 1, 1, 1, 2, 3, (999999, 6), -64),
    ('s', 2000, 1, 1, 1, 2, 3, (127, 3), None),
    ('s', 2000, 1, 1, 1, 2, 3, (128, 3), None),
    ('s', 2000, 1, 1, 1, 2, 3, (123456789, 9), 0),
    ('s', 2000, 1, 1, 1, 2, 3, (1, 9), 0),
    ('s', 2000, 1, 1, 1, 2, 3, (999999999, 9), 0),
    ('s', 2000, 1, 1, 1, 2, 3, (0, 7), 0),
    ('s', 2000, 1, 1, 1, 2, 3, (10 ** 12 + 1, 13), 0),
    ('s', 9999, 12, 31, 23, 59, 59, (999999, 6), 0),
    ('s', 1, 1, 1, 0, 0, 0, None, 0),
]

STRINGS = [s for s in SYMS] + ["it's", '"q"', '\\n', 'a' * 13, 'a' * 14, 'a' * 127, 'a' * 128, '\u00e9' * 6 + 'a', '\u00e9' * 7, '\u00e9' * 64,
                               'x' * 16383, 'x' * 16384, '\n', '\r\n', '\t', '\x07\x08\x0b\x0c\x1b', '\x9f', '\uffff', '\U0010ffff', '\\u0041',
                               '?', '/', "'''''", '\x00a', '\x001', 'a\\', '\ud7ff\ue000']

BYTES = [b'', b'a', b'ab', b'abc', b'abcd', b'\x00', b'\xff', b'\x00\xff\x80', b'"', b"'", b"'''", b'\\', b'}}', b'{{', b'\n', b'\r\n', b'\t',
         b'\x7f', b'\x80', b'\x1f', b'?', b'/', b'\\x41', b'x' * 13, b'y' * 14, b'z' * 127, b'w' * 128, bytes(range(256)),
         b'v' * 16384]


def scalars():
    """Every scalar of the boundary alphabets, plus typed nulls and empty containers."""
    out = [N(t) for t in TYPES]
    out += [N('bool', True), N('bool', False)]
    out += [N('int', n) for n in INTS]
    out += [F(x) for x in FLOATS]
    out += [N('decimal', d) for d in DECIMALS]
    out += [N('timestamp', t) for t in STAMPS]
    out += [N('symbol', s) for s in SYMS] + [N('symbol', 0)]
    out += [N('string', s) for s in STRINGS]
    out += [N('clob', b) for b in BYTES]
    out += [N('blob', b) for b in BYTES]
    out += [L(), SX(), ST()]
    return out


def core():
    """A smaller alphabet, one or more of every class whose spelling or encoding differs; used pairwise."""
    return [
        N('null'), N('int'), N('struct'), N('symbol'), N('bool', True), N('bool', False),
        N('int', 0), N('int', 1), N('int', -1), N('int', 255), N('int', 2 ** 64), N('int', -2 ** 111),
        F(0.0), F(-0.0), F(1.5), F(1e22), F(float('nan')), F(float('inf')), F(float('-inf')),
        N('decimal', (0, 0, 0)), N('decimal', (1, 0, 0)), N('decimal', (1, 15, -1)), N('decimal', (0, 1, 70)), N('decimal', (0, 0, -3)),
        N('timestamp', STAMPS[0]), N('timestamp', STAMPS[3]), N('timestamp', STAMPS[5]), N('timestamp', STAMPS[8]), N('timestamp', STAMPS[17]), N('timestamp', STAMPS[25]),
        N('symbol', 'a'), N('symbol', 'b'), N('symbol', ''), N('symbol', '+'), N('symbol', '-'), N('symbol', 'null'), N('symbol', '$10'), N('symbol', 'a b'),
        N('symbol', 'name'), N('symbol', '\u00e9'), N('symbol', "'"), N('symbol', '//'), N('symbol', '.'), N('symbol', 'nan'), N('symbol', 0),
        N('string', ''), N('string', 'a'), N('string', '"\\\n'), N('string', '\u20ac\U0001f600'), N('string', 'y' * 14), N('string', 'z' * 130),
        N('clob', b''), N('clob', b'"\\\n'), N('clob', b'}}'), N('blob', b''), N('blob', b'abc'), N('blob', b'\xff\x00'), N('blob', b'q' * 14),
        L(), SX(), ST(), L(N('int', 1)), SX(N('symbol', '-'), N('int', 1)), ST(('a', N('int', 1))), ST(('a', N('int', 1)), ('a', N('string', 'x'))),
        L(N('string', 'x' * 12)), L(N('string', 'x' * 13)), ST(('', N('null'))), L(SX(ST(('b', L())))),
    ]


TINY = [N('null'), N('bool', False), N('int', 0), N('int', -1), F(-0.0), N('decimal', (1, 0, -1)), N('timestamp', STAMPS[0]),
        N('symbol', 'a'), N('symbol', '-'), N('string', 'a'), N('clob', b'a'), N('blob', b'ab'), L(), SX(), ST()]

ANNOTS = [('a',), ('a', 'a'), ('b', 'a'), ('',), ('null',), ('$10',), ('$ion_1_0',), ('+',), ('\u00e9',), ('name',), ("'",), (0,),
          ('a', '$ion_symbol_table'), tuple('s%d' % i for i in range(14)), tuple('t%d' % i for i in range(130)), ('1',), ('nan', 'true')]


def trees(n, leaves, names=('a', 'b'), depth=4):
    """Every tree of exactly n nodes over the given leaves, with list, sexp and struct containers."""
    if n == 1:
        for x in leaves:
            yield x
        return
    if depth == 0:
        return
    for kids in forests(n - 1, leaves, names, depth - 1):
        yield N('list', kids)
        yield N('sexp', kids)
        for fs in fields(kids, names):
            yield N('struct', fs)


def forests(n, leaves, names, depth):
    """Every non-empty sequence of trees with n nodes altogether."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k, leaves, names, depth):
            for rest in forests(n - k, leaves, names, depth):
                yield (first,) + rest


def fields(kids, names):
    if not kids:
        yield ()
        return
    for nm in names:
        for rest in fields(kids[1:], names):
            yield ((nm, kids[0]),) + rest


ION_SPACE = ' \t\n\r\x0b\x0c'


def indent_units(tier):
    """Indentation units: every word of Ion whitespace up to a length, long ones, and words with any other character in any place."""
    out = ['']
    for n in range(1, 5 if tier == 'thorough' else 4):
        out += [''.join(w) for w in itertools.product(ION_SPACE, repeat=n)]
    out += [c * n for c in ' \t' for n in list(range(4, 41)) + [79, 80, 81, 127, 128, 255, 256, 1000, 5000]]
    other = [chr(c) for c in range(0x110000) if chr(c).isspace() and chr(c) not in ION_SPACE]
    other += list(u'\ufeff\u200b\u180e\u2060\0\x08\x0e\x1b\x7fx0,:/*$\'"({[]})_-+.#')
    for c in other:
        out += [c, ' ' + c, c + ' ', c + c, '\n' + c, c + '\n', ' \n' + c + '\n ']
    out += ['//', '/**/', ' /* */', '//\n', '\n//\n', ' , ', '\\n', '""', ""]
    return out


def indent_nodes():
    from .model import N, L, SX, ST
    scalars = [N('int', 1), N('string', u'a'), N('symbol', u'b c'), N('null'), N('blob', b'ab'), N('clob', b'a"b')]
    st = ST((u'f', scalars[0]), (u'g h', L(*scalars)), (u'f', ST()), (u's', SX(L(), SX(scalars[2]), scalars[1])))
    return [(N('int', 1),), (L(),), (st,), (L(st, SX(), N('list', (st,), u'x', u'y z'), scalars[0]),),
            (scalars[0], L(scalars[1]), st, scalars[2], scalars[3]), ()]
