# -*- coding: utf-8 -*-
"""C05: the text reader against the reference parser, over exhaustively enumerated documents."""
from itertools import product

from ..harness import Violation
from ..model import ion, from_py, Mismatch, canon
from .. import reftext
from ..refsym import RefError, Unspecified
from ..values import shard

PID = 'C05'
RULE = ('Every document of the named families: all strings to 3 (4) characters over the lexically distinct characters, all sequences of '
        'tokens in each container, all numeric and timestamp spellings to a length, all escapes in all quotings, and every single-character '
        'replacement, insertion and deletion in a corpus; the reference parser gives the verdict (values or error); state = distinct '
        'document, transition = one parse; non-trivial = the reference decides it.')
ASSUMPTIONS = ['spellings the specification leaves open (counted as unspecified) only have to terminate']


def decide(payload, rec):
    i = ion()
    try:
        want = reftext.parse_stream(payload)
    except RefError as e:
        want = None
        why = str(e)
    except Unspecified:
        rec.outcome('unspecified')
        try:
            i.loads(payload, single_value=False)
        except Exception:
            pass
        return
    rec.n_states += 1
    rec.trans()
    rec.trace()
    try:
        vals = i.loads(payload, single_value=False)
    except Exception as e:
        if want is None:
            rec.outcome('rejected')
            return
        raise Violation('%r is valid and denotes %r, but loading it raises %s: %s' % (payload, want, type(e).__name__, str(e)[:300]))
    try:
        got = [from_py(v) for v in vals]
    except Mismatch as e:
        got = 'Mismatch %s' % e
    if want is None:
        raise Violation('%r is not valid Ion (%s), but loads to %r' % (payload, why, got))
    if got != want and (isinstance(got, str) or [canon(n) for n in got] != [canon(n) for n in want]):
        raise Violation('%r denotes %r, but loads to %r' % (payload, want, got))
    rec.outcome('values %s' % (','.join(n[1] for n in want[:3])))


KINDS = {'text': decide}

CHARS = list(' \n\t\'"\\/*{}[](),:.+-_$019aeEdxbTZnu=#;') + ['\u00e9']
CHARS_S = list(' \n\'"\\/*{}[](),:.+-_$01aeT')


def g_chars(n, chars=CHARS):
    def g():
        for k in range(n):
            for t in product(chars, repeat=k + 1):
                yield ''.join(t)
    return g


def g_chars_exact(n, chars):
    def g():
        for t in product(chars, repeat=n):
            yield ''.join(t)
    return g


TOKENS = ['a', 'null', 'null.int', 'true', 'nan', '+inf', '-inf', '0', '-1', '1.5', '2d0', '-3e1', '0x1F', '2000T', '2000-01-01', '2000-01-01T00:00Z', '"s"', "'q'", "''", "'''l'''", '{{}}', '{{"c"}}', '{{YQ==}}',
          '[', ']', '(', ')', '{', '}', ',', ':', '::', ' ', '\n', '//c\n', '/*c*/', '//', '+', '-', '.', '*', '/', '<=', '$3', '$0', '$ion_1_0', '$ion', 'f:', 'a::', '"f":', '{}', '[]', '()', '$ion_symbol_table::{symbols:["z"]}', '$10', '{{', '}}', "'''", "'", '"']
CTX = [('', ''), ('[', ']'), ('(', ')'), ('{', '}'), ('{g:', '}'), ('z::', ''), ('[[(', ')]]'), ('(1 ', ' 2)'), ('[1,', ',2]')]
TOK_S = [t for t in TOKENS if t not in ('-3e1', '2000-01-01', '{{YQ==}}', '2d0', '$ion', '"f":', 'nan', 'true', '$0', '0', "'''", '<=', '*', '-inf')]


def g_tokens(n, toks, ctxs):
    def g():
        for k in range(1, n + 1):
            for t in product(toks, repeat=k):
                s = ''.join(t)
                for a, b in ctxs:
                    yield a + s + b
    return g


NUM = list('019_.eExbdT-:+Z') + [' ']


def g_nums(n):
    def g():
        for k in range(1, n + 1):
            for t in product('019_.eEdxXbBfT-:+Z', repeat=k):
                s = ''.join(t)
                if s[0] in '01' or (s[0] == '-' and s[1:2] in ('0', '1', '_', '.', '-', '+')):
                    yield s
                    if k <= 3:
                        yield '[' + s + ']'
                        yield '(' + s + ')'
                        yield '{a:' + s + '}'
                        yield s + '/**/'
    return g


def g_nums7():
    """Numbers spelled with one digit, the separators and the signs only, so that they can be long."""
    for al in ('1_.e+', '1_.d-', '0.e-d', '0x_b1'):
        for k in range(0, 7):
            for t in product(al, repeat=k):
                yield al[0] + ''.join(t)
                if k < 5:
                    yield '-' + al[0] + ''.join(t)


def g_num_parts():
    ints = ['0', '1', '12', '1_2', '1__2', '1_', '_1', '00', '01', '9007199254740993', '-0', '-1', '-12_3', '-_1', '--1', '-', '+1', '123456789012345678901234567890']
    fracs = ['', '.', '.0', '.5', '.50', '.0_0', '.1_2', '._1', '.1_', '.1__2', '..', '.-1', '.000000000000000000001']
    exps = ['', 'd0', 'D0', 'e0', 'E0', 'd1', 'd-1', 'd+1', 'e-1', 'e+1', 'E+10', 'd', 'e', 'd-', 'e+', 'd0_1', 'd1.', 'e1.5', 'd--1', 'd00', 'e01', 'e308', 'e309', 'e-324', 'e-325', 'd1000', 'd-1000', 'f1', 'dd', 'x1', 'e_1', 'e1_', 'e+_1', 'd-_1', 'e-1_', 'd+1_2', 'e5_0', 'd-1__2']
    ends = ['', ' ', ',', '/', '//', '/**/', '"', "'a'", '[]', '{}', '()', ']', ')', '}', 'a', '+', '-', ':', '::a', '\t', '\v', '\f', '\r', '\n', '\x00', '\u00e9', '$', '_', '.', '#', '=', ';', '\\']
    for a in ints:
        for f in fracs:
            for x in exps:
                yield a + f + x
                yield '(' + a + f + x + ')'
                yield '[' + a + f + x + ',1]'
    for a in ['0', '12', '-1', '1.', '1.5', '-1.5e3', '1d-3', '0x1F', '0b101', '-0x_1', '2000T', '2000-01T', '2000-01-01', '2000-01-01T', '2000-01-01T00:00Z', '2000-01-01T00:00:00.5+01:00', 'true', 'null', 'null.int', 'nan', '+inf', '-inf', 'abc', "'q'", '"s"', "'''l'''", '{{}}', '$3', '+', '<=', '[]', '(a)', '{a:1}', '{{"c"}}']:
        for e in ends:
            for c in CTX[:5]:
                yield c[0] + a + e + c[1]
                yield c[0] + a + e + ' b' + c[1]
    for pre in ['0x', '0X', '0b', '0B', '-0x', '-0b', '00x', '1x', '+0x', '0o', '--0x']:
        for n in range(0, 5):
            for t in product('01aF_2', repeat=n):
                yield pre + ''.join(t)


def g_stamps():
    ys = ['0000', '0001', '1999', '2000', '9999', '200', '20000']
    ms = ['', '-00', '-01', '-02', '-12', '-13', '-1', '-001']
    ds = ['', '-00', '-01', '-28', '-29', '-30', '-31', '-32', '-1']
    ts = ['', 'T', 't', 'T00:00', 'T23:59', 'T24:00', 'T00:60', 'T0:00', 'T00:0', 'T00', 'T00:00:00', 'T23:59:59', 'T00:00:60', 'T00:00:0', 'T00:00:00.', 'T00:00:00.0', 'T00:00:00.5', 'T00:00:00.123456', 'T00:00:00.1234567', 'T00:00:00.999999999999', 'T00:00:00.000000000', 'T00:00:00,5', 'T00:00.5', ' 00:00', 'T00:00:00.5_0', 'T-1:00']
    os_ = ['', 'Z', 'z', '+00:00', '-00:00', '+01:00', '-01:00', '+23:59', '-23:59', '+24:00', '+00:60', '+1:00', '+01', '+0100', '+00:01', '-00:01', 'ZZ', '+01:0', '+01:000', '-12:30', '+12:34']
    for y in ys:
        for m in ms:
            for d in ds:
                for t in ts:
                    short = t in ('', 'T', 't', 'T00')
                    for o in (os_[:4] if short or (y not in ('2000', '0001') and m != '-02') else os_):
                        yield y + m + d + t + o
    for base in ['2000-02-29T23:59:59.123456789+12:34', '2000-01-01T00:00Z', '1999-12-31T', '1999-12-31', '1999-12T', '1999T', '2000-01-01T00:00:00-00:00', '2000-01-01T00:00:00.5Z']:
        for p in range(len(base) + 1):
            for c in '0159T:-+.Z_ ,]xde':
                yield base[:p] + c + base[p:]
                yield base[:p] + c + base[p + 1:]
                yield '[' + base[:p] + c + base[p + 1:] + ']'
            yield base[:p] + base[p + 1:]
            yield base[:p]
            yield '[' + base[:p] + ']'


QUOTES = [('"', '"'), ("'", "'"), ("'''", "'''"), ('{{"', '"}}'), ("{{'''", "'''}}"), ("'''a''' '''", "''' '''b'''"), ('{"', '":1}'), ("{'", "':1}"), ("{'''", "''':1}"), ("'", "'::1"), ('[{{ "', '" }}]')]


def g_escapes():
    for a, b in QUOTES:
        for o in list(range(0, 0x180)) + [0x2028, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff]:
            c = chr(o)
            for body in (c, '\\' + c, 'x' + c, c + 'x', '\\' + c + 'x', '\\\\' + c, c + c, '\\' + c + '\\' + c, c + '\\n', '\\x' + c, '\\x4' + c, '\\u004' + c, '\\U0000004' + c):
                yield a + body + b
        for h in ('0', '00', '41', '7f', '80', 'e9', 'ff', 'FF', 'aB', 'g0', '0g', '4', '-1', '+1', ' 1', '_1'):
            yield a + '\\x' + h + b
            yield a + '\\x' + h + 'z' + b
        for h in ('0000', '0041', '00e9', '20AC', '20ac', 'd7ff', 'd800', 'dbff', 'dc00', 'dfff', 'e000', 'ffff', 'feff', '004', '00g1', '+041', ' 041', '0x41'):
            yield a + '\\u' + h + b
            yield a + '\\u' + h + 'z' + b
            yield a + '\\u' + h + '\\u0041' + b
            yield a + 'q\\u' + h + '\\n' + b
        for h in ('00000000', '00000041', '000020ac', '0001F600', '0001f600', '0010ffff', '00110000', '0000d800', '0000dfff', 'ffffffff', '7fffffff', '0000004', '0001F60g', '+0000041'):
            yield a + '\\U' + h + b
            yield a + '\\U' + h + 'z' + b
        for n in range(1, 5):
            for t in product(['\\', '\n', '\r', 'n', '"', "'", ' ', 'a', '\r\n'], repeat=n):
                yield a + ''.join(t) + b


def g_lobs():
    for n in range(0, 6):
        for t in product('Aa+/= }', repeat=n):
            yield '{{' + ''.join(t) + '}}'
    for n in range(0, 5):
        for t in product(['"a"', "'''b'''", ' ', '\n', '/**/', '//x\n', 'YQ==', '"', "'''", "''", '}', '{', ','], repeat=n):
            yield '{{' + ''.join(t) + '}}'
    for a in ['{{', '{ {', '{{ ', '{{\n', '{', '{{{']:
        for b in ['}}', '} }', ' }}', '}', '}}}', '', '}\n}']:
            for m in ['', 'YQ==', 'YWI=', 'YWJj', 'Y Q = =', 'YQ=', 'YQ', 'YR==', '"x"', "'''x'''", '"x" "y"', "'''x''' '''y'''", "'''x'''//c\n'''y'''", 'a:1', '"a":1', '\u00e9', '"\u00e9"', '"\\u0041"', '"\x80"', '"\x7f"', 'Y!==', 'YQ==YQ==', '=', '====', "'x'"]:
                for ctx in CTX[:4]:
                    yield ctx[0] + a + m + b + ctx[1]


CORPUS = ['$ion_1_0 a::b::{c:1,"d":[2,3.5,4d1],\'e\':(f + -1 g.h)}', "'''a''' '''b''' \"c\\n\" 'd e'", '{{YWJj}} {{"ab\\x41"}} {{\'\'\'a\'\'\' \'\'\'b\'\'\'}}', 'null null.int [null.list,true,false,nan,+inf,-inf]',
          '2000-01-01T12:34:56.789+01:00 1999T 2001-02T', '-0x1F 0b101 1_000 -1.5e-10 0d0', '(a::+ b::[c::d] <= -inf)', '{a:b::c,a:d,\'\':"",}', '[[],(),{},[[]],]', '// c\n1 /* d */ 2 // e', "$10 $ion a::$0 '$10'",
          '$ion_symbol_table::{imports:[{name:"t",version:1,max_id:2}],symbols:["x","y"]} $12 $13 $10', '$ion_symbol_table::{symbols:["x"]} $10 $ion_1_0 $ion_symbol_table::{imports:$ion_symbol_table,symbols:["y"]} $10', '{a : b , c : /*x*/ d::e}', "('a'::'b' '' ''' ''')", '(null.int nullx null true1 nan)', "{'''a''' '''b''':1,$4:2}", '"\\u00e9\\U0001F600\\\nx\\0"']
EDITS = list(' \n\'"\\/*{}[](),:.+-_$019aeTn=') + ['\u00e9', '\x00']


def g_edits():
    for d in CORPUS:
        yield d
        for p in range(len(d) + 1):
            yield d[:p]
            yield d[p:]
            yield d[:p] + d[p + 1:]
            yield d[:p] + d[p + 2:]
            for c in EDITS:
                yield d[:p] + c + d[p:]
                yield d[:p] + c + d[p + 1:]


def g_edits2():
    E2 = list(' \'"\\/{}[](),:.+-$0aT')
    for d in CORPUS:
        for p in range(len(d) + 1):
            for c in E2:
                for c2 in E2:
                    yield d[:p] + c + c2 + d[p:]
                    yield d[:p] + c + c2 + d[p + 2:]


def g_comments():
    parts = ['/', '*', '//', '/*', '*/', '\n', '\r', 'a', '1', ' ', '[', ']', ',', '"', "'", '**']
    for n in range(1, 5):
        for t in product(parts, repeat=n):
            yield ''.join(t)
    for n in range(1, 4):
        for t in product(parts, repeat=n):
            s = ''.join(t)
            yield '[' + s + ']'
            yield '(' + s + ')'
            yield "'''x'''" + s + "'''y'''"
            yield 'a' + s + '::b'
            yield '{a' + s + ':' + 'b}'


def g_keywords():
    base = ['null', 'true', 'false', 'nan', '+inf', '-inf', 'inf', '$ion_1_0', '$ion_symbol_table', '$10', '$'] + ['null.' + t for t in reftext.TYPES]
    pre = ['', 'a::', '[', '(', '{', '{f:', '(a', '[1,', '(+', '(-', '( ', '(+ ', '"x"', "'x'", '1 ', '(1 ']
    post = ['', 'x', '1', '_', '$', '.', '.int', '.x', '::a', '::1', ' ::1', ':1', ': 1', '"', "''", ',', '[', '(', '{', '/', '//', '+', '-', '=', '\u00e9', '\x0b', ' ']
    close = {'[': ']', '(': ')', '{': '}'}
    for b in base:
        for k in range(1, len(b) + 1):
            w = b[:k]
            for p in pre:
                c = close.get(p[:1], '')
                for q in post:
                    yield p + w + q + c
            yield w.upper()
            yield w + w
            yield '(' + w + '+' + w + ')'


def g_dense():
    """Every dense scalar in three spellings, in documents of 24."""
    from ..values import g_dense as dense
    for v in dense():
        for style in (0, 1, 2):
            yield reftext.render(v, style)


SIZES = list(range(0, 36)) + [62, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9001, 16383, 16384, 16385, 20000]


def long_tokens(n):
    """Every kind of token, blank and container, n long."""
    w = ('abcdefghij' * (n // 10 + 1))[:n]
    d = ('1234567890' * (n // 10 + 1))[:n]
    u = ('\u20ac\U0001f600\u00e9' * (n // 3 + 1))[:n]
    yield 'x' + w
    yield '$' + w + '_'
    for q in ('"', "'", "'''"):
        yield q + w + q
        yield q + u + q
        yield q + w + '\\n' + q
        yield q + '\\n' * n + q
        yield q + w + '\\u20ac' + u + q
        yield q + w
        yield q + w + '\\'
        if q == "'''":
            yield q + w + "''" + w + '\n' + q
    yield '{{"' + w + '"}}'
    yield "{{'''" + w + "''' '''" + w + "'''}}"
    b = 'QUJD' * (n // 4 + 1)
    yield '{{' + b + '}}'
    yield '{{' + b[:n] + '}}'
    yield '{{ ' + ' '.join(b) + ' }}'
    yield '{{' + b + 'YWI=}}'
    if n <= 4000:
        yield '1' + d
        yield '-1' + d
        yield '1' + '_1' * n
        yield '1' + d + 'd0'
        yield '1' + d + '.' + d
    if n <= 513:
        yield '0.' + '0' * n + '1e0'
        yield '1' + '0' * n + 'e-%d' % n
        yield '2000-01-01T00:00:00.' + d + 'Z'
    if n <= 4000:
        yield '0.' + '0' * n + '1'
    yield '1d-%d' % n
    yield '1d%d' % n
    yield '0x1' + ('0123456789abcdefABCDEF' * (n // 22 + 1))[:n]
    yield '0b1' + '01' * (n // 2)
    yield '0x' + '0_' * n + 'F'
    for c in (' ', '\n', '\t', '\r\n', '//' + w + '\n', '/*' + w + '*/', '/*' + '*' * n + '*/', '//\n' * n, '/**/' * n):
        c = c * n if len(c) < 3 else c
        yield '1' + c + '2'
        yield '[' + c + '1' + c + ',' + c + ']' + c
        yield 'a' + c + '::' + c + 'b'
        yield '{a' + c + ':' + c + '1}'
        yield "'''a'''" + c + "'''b'''"
    yield '[' + '1,' * n + '2]'
    yield '(' + 'a ' * n + '+)'
    yield '{' + 'a:1,' * n + '}'
    yield '{' + ','.join('a%d:%d' % (k, k) for k in range(n)) + '}'
    yield 'a::' * n + '1'
    yield ''.join('a%d::' % k for k in range(n)) + 'b'
    yield '1 ' * n
    yield "'''a''' " * n
    yield '{{' + "'''a''' " * n + '}}'
    yield '(' + ('+-*/' * n)[:n] + ' 1)' if '//' not in '+-*/' * 2 and '/*' not in ('+-*/' * n)[:n] else '(' + '+' * n + ' 1)'
    yield '$ion_symbol_table::{symbols:[' + ','.join('"a%d"' % k for k in range(n)) + ']} $10 $%d $%d' % (9 + n, n // 2 + 10)
    yield '$ion_symbol_table::{symbols:[' + ','.join('"a%d"' % k for k in range(n)) + ']} $%d' % (10 + n)
    yield ''.join('$ion_symbol_table::{imports:$ion_symbol_table,symbols:["a%d"]} $%d ' % (k, 10 + k // 2) for k in range(min(n, 130)))
    if n < 70:
        yield '[' * n + ']' * n
        yield '(' * n + ')' * (n - 1)
        yield '{a:' * n + '1' + '}' * n
        yield '[(' * n + ')]' * n


def g_long():
    for n in SIZES:
        for t in long_tokens(n):
            yield t
            if n % 2:
                yield '[' + t + ']'
            else:
                yield t + ' z'


def g_huge():
    from .. import huge
    for n in (65535, 65536, 65537):
        for d in huge.text_docs(n):
            yield d
            yield d[:-1]


GENS = {'huge': g_huge, 'dense': g_dense, 'long': g_long, 'chars3': g_chars(3), 'chars4': g_chars_exact(4, CHARS), 'chars4s': g_chars_exact(4, CHARS_S), 'chars5s': g_chars_exact(5, CHARS_S), 'tokens2': g_tokens(2, TOKENS, CTX), 'tokens3': g_tokens(3, TOK_S, CTX[:4]), 'tokens3x': g_tokens(3, TOKENS, CTX),
        'tokens4': g_tokens(4, TOK_S, CTX[:4]), 'nums4': g_nums(4), 'nums5': g_nums(5), 'nums6': g_nums(6), 'nums7': g_nums7, 'numparts': g_num_parts, 'stamps': g_stamps, 'escapes': g_escapes, 'lobs': g_lobs, 'edits': g_edits, 'edits2': g_edits2, 'comments': g_comments, 'keywords': g_keywords}


def jobs(tier):
    names = ['chars3', 'chars4s', 'tokens2', 'tokens3', 'nums4', 'nums7', 'numparts', 'stamps', 'escapes', 'lobs', 'edits', 'comments', 'keywords', 'dense', 'long', 'huge']
    n = 24
    if tier == 'thorough':
        names += ['chars4', 'chars5s', 'tokens3x', 'nums5', 'nums6', 'edits2', 'tokens4']
        n = 128
    return [('text', (g, i, n)) for g in names for i in range(n)]


def cases(kind, args):
    name, i, n = args
    return shard(GENS[name](), i, n)
