# -*- coding: utf-8 -*-
"""C03: mapping of plain Python values."""
import collections
import datetime
import enum
from decimal import Decimal
from io import BytesIO

from .. import values as V, alpha
from ..harness import Violation
from ..model import N, bits_float, ion, to_py, from_py, bag, canon, fbits, ts_to_py, Mismatch

PID = 'C03'
RULE = ('Plain Python values are given as expressions with the Ion value the conversion table assigns to them. Every atom, '
        'every ordered pair of atoms in every container shape, all container trees to the size bound, with tuple_as_sexp off '
        'and on, sequence_as_stream off and on, in text (compact, indented) and binary; the same object in several places; containers changed between dumps; objects outside the table in every position. '
        'State = distinct (expression, options); transition = one dump or load.')
ASSUMPTIONS = ['the table in simpleion.dump is the documentation; namedtuples are covered only as tuples, as the code and its tests treat them',
               'offsets are whole minutes']


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyDecimal(Decimal):
    pass


class MyDatetime(datetime.datetime):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class Mixin(object):
    pass


class MixInt(Mixin, int):
    pass


class StrMix(str, Mixin):
    pass


class DeepList(MyList, Mixin):
    pass


class MixTuple(Mixin, tuple):
    pass


class Colour(enum.IntEnum):
    red = 3


class Dst(datetime.tzinfo):
    """An offset that depends on the date."""
    def utcoffset(self, d):
        return None if d is None else datetime.timedelta(minutes=120 if 4 <= d.month <= 9 else 60)

    def dst(self, d):
        return datetime.timedelta(0)

    def tzname(self, d):
        return 'DST'

    def __deepcopy__(self, memo):
        return self


class NoOffset(Dst):
    def utcoffset(self, d):
        return None


class ReprFloat(float):
    def __repr__(self):
        return "rf"
    __str__ = __repr__


class ReprDecimal(Decimal):
    def __str__(self):
        return "rd"
    __repr__ = __str__


class ReprStr(str):
    def __str__(self):
        return "rs"
    __repr__ = __str__


class Kind(str, enum.Enum):
    k = 'kind'


NT = collections.namedtuple('NT', 'x y')


def twin(base):
    """A new class at every call, all of one name in one module: only their bases tell them apart."""
    class Same(base):
        pass
    return Same

_ENV = None


def env():
    global _ENV
    if _ENV is None:
        i = ion()

        class MyTok(i.sym.SymbolToken):
            pass

        class MyTs(i.core.Timestamp):
            pass
        dt = datetime.datetime
        td = datetime.timedelta
        _ENV = dict(globals())
        _ENV.update(dt=dt, td=td, tz=lambda m: datetime.timezone(td(minutes=m)), Tok=i.sym.SymbolToken, MyTok=MyTok,
                    Ts=i.core.Timestamp, T=lambda *p: ts_to_py(p), Off=lambda m: i.core.OffsetTZInfo(td(minutes=m)),
                    ion=lambda n: to_py(n), nan=float('nan'), inf=float('inf'), P=i.core.TimestampPrecision, MyTs=MyTs,
                    OD=collections.OrderedDict, DD=collections.defaultdict, Nul=i.st.IonPyNull, Txt=i.st.IonPyText, Int=i.st.IonPyInt, IonType=i.core.IonType)
    return _ENV


def stamp(y, mo, d, h, mi, s, us, off):
    """A datetime: the precision is second; the fraction is given by value only ('us')."""
    return N('timestamp', ('s', y, mo, d, h, mi, s, ('us', us), off))


I, S = (lambda n: N('int', n)), (lambda s: N('string', s))

ATOMS = [
    ('None', N('null')), ('True', N('bool', True)), ('False', N('bool', False)),
    ('0', I(0)), ('1', I(1)), ('-1', I(-1)), ('2**70', I(2 ** 70)), ('-2**63', I(-2 ** 63)), ('255', I(255)),
    ('0.0', N('float', fbits(0.0))), ('-0.0', N('float', fbits(-0.0))), ('1.5', N('float', fbits(1.5))), ('nan', N('float', 'nan')),
    ('-inf', N('float', fbits(float('-inf')))), ('1e100', N('float', fbits(1e100))), ('1.0', N('float', fbits(1.0))),
    ("Decimal('1.50')", N('decimal', (0, 150, -2))), ("Decimal('-0')", N('decimal', (1, 0, 0))), ("Decimal('1E+5')", N('decimal', (0, 1, 5))),
    ("Decimal(1)", N('decimal', (0, 1, 0))), ("Decimal('-123.456')", N('decimal', (1, 123456, -3))),
    ('dt(2000,1,2,3,4,5)', stamp(2000, 1, 2, 3, 4, 5, 0, None)), ('dt(2000,1,2,3,4,5,600)', stamp(2000, 1, 2, 3, 4, 5, 600, None)),
    ('dt(2000,1,2,3,4,5,600000,tz(0))', stamp(2000, 1, 2, 3, 4, 5, 600000, 0)), ('dt(2000,1,1,0,0,0,0,tz(330))', stamp(2000, 1, 1, 0, 0, 0, 0, 330)),
    ('dt(1999,12,31,23,59,59,999999,tz(-60))', stamp(1999, 12, 31, 23, 59, 59, 999999, -60)), ('dt(2000,1,1)', stamp(2000, 1, 1, 0, 0, 0, 0, None)),
    ('dt(2000,1,2,3,4,5,6,Dst())', stamp(2000, 1, 2, 3, 4, 5, 6, 60)), ('dt(2000,7,2,3,4,5,6,Dst())', stamp(2000, 7, 2, 3, 4, 5, 6, 120)), ('MyDatetime(2000,9,30,23,30,5,0,Dst())', stamp(2000, 9, 30, 23, 30, 5, 0, 120)),
    ('dt(2000,7,2,3,4,5,6,NoOffset())', stamp(2000, 7, 2, 3, 4, 5, 6, None)),
    ('dt(2000,1,1,0,0,0,1,Off(1))', stamp(2000, 1, 1, 0, 0, 0, 1, 1)),
    ("T(%s)" % ','.join(map(repr, alpha.STAMPS[0])), N('timestamp', alpha.STAMPS[0])), ("T(%s)" % ','.join(map(repr, alpha.STAMPS[3])), N('timestamp', alpha.STAMPS[3])),
    ("T(%s)" % ','.join(map(repr, alpha.STAMPS[13])), N('timestamp', alpha.STAMPS[13])), ("T(%s)" % ','.join(map(repr, alpha.STAMPS[25])), N('timestamp', alpha.STAMPS[25])),
    ("T(%s)" % ','.join(map(repr, alpha.STAMPS[28])), N('timestamp', alpha.STAMPS[28])),
    ('Ts(2000,1,2,3,4,5,600)', stamp(2000, 1, 2, 3, 4, 5, 600, None)), ('Ts(2000,1,2,3,4,5,600,tz(-330))', stamp(2000, 1, 2, 3, 4, 5, 600, -330)),
    ('dt(2000,1,2,4,4,5,600000,tz(60))', stamp(2000, 1, 2, 4, 4, 5, 600000, 60)), ('MyDatetime(2000,1,2,2,3,5,600000,Off(-61))', stamp(2000, 1, 2, 2, 3, 5, 600000, -61)),
    ('100', I(100)), ('100.0', N('float', fbits(100.0))), ("Decimal('1E+2')", N('decimal', (0, 1, 2))), ("Decimal('100.0')", N('decimal', (0, 1000, -1))), ("Decimal('0.00')", N('decimal', (0, 0, -2))),
    ('Txt.from_value(IonType.SYMBOL,"q",("z",))', N('symbol', 'q', 'z')), ('Txt.from_value(IonType.STRING,"q")', S('q')), ('Int.from_value(IonType.BOOL,0)', N('bool', False)), ('Int.from_value(IonType.INT,0,("z",))', N('int', 0, 'z')),
    ("'a'", S('a')), ("''", S('')), ("'null'", S('null')), ("'\\u20ac\"\\n'", S('\u20ac"\n')),
    ("b'a'", N('blob', b'a')), ("b''", N('blob', b'')), ("b'\\xff\\x00'", N('blob', b'\xff\x00')),
    ("Tok('a',None)", N('symbol', 'a')), ("Tok('',None)", N('symbol', '')), ("Tok('null',None)", N('symbol', 'null')), ("Tok('b',4)", N('symbol', 'b')),
    ('Tok(None,0)', N('symbol', 0)), ("MyTok('c',None)", N('symbol', 'c')),
    ('MyInt(5)', I(5)), ('MyFloat(2.5)', N('float', fbits(2.5))), ("MyStr('s')", S('s')), ("MyBytes(b'b')", N('blob', b'b')), ("MyDecimal('2.0')", N('decimal', (0, 20, -1))),
    ('MyDatetime(2001,2,3,4,5,6,7)', stamp(2001, 2, 3, 4, 5, 6, 7, None)), ('MixInt(6)', I(6)), ("StrMix('m')", S('m')), ('Colour.red', I(3)), ("Kind.k", S("kind")), ("ReprFloat(1.5)", N("float", fbits(1.5))), ("ReprDecimal('2')", N("decimal", (0, 2, 0))), ("ReprStr('x')", S("x")),
    ('MyTs(2001,2,3,4,5,6,7)', stamp(2001, 2, 3, 4, 5, 6, 7, None)),
    ('[]', N('list', ())), ('{}', N('struct', ())), ('MyList()', N('list', ())), ('MyDict()', N('struct', ())), ('OD()', N('struct', ())), ('DD(int)', N('struct', ())),
    ('()', N('tuple', ())), ('MyTuple()', N('tuple', ())),
    ('Nul.from_value(None and 0 or __import__("amazon.ion.core").ion.core.IonType.INT, None)', N('int')),
] + [('ion(%r)' % (n,), n) for n in [
    N('int', 1, 'x'), N('bool', True), N('bool', False, 'y'), N('string', 's', 'a', 'b'), N('symbol', 's'), N('clob', b'c'), N('blob', b'd', 'z'), N('list', (N('int', 1),)),
    N('sexp', (N('symbol', '+'), N('null', None, 'n'))), N('struct', (('a', N('int', 1)), ('a', N('int', 2)), ('', N('string', ''))), 'q'), N('null', None), N('struct', None),
    N('float', fbits(-0.0)), N('decimal', (1, 0, -3)), N('timestamp', alpha.STAMPS[9]), N('list', (), 'e'), N('symbol', 0)]]

# Classes that share their name and module, each of a different base.
SAME = [
    ('twin(int)(5)', I(5)), ("twin(str)('s')", S('s')), ('twin(float)(2.5)', N('float', fbits(2.5))), ("twin(bytes)(b'b')", N('blob', b'b')), ("twin(Decimal)('2.0')", N('decimal', (0, 20, -1))),
    ('twin(dt)(2001,2,3,4,5,6,7)', stamp(2001, 2, 3, 4, 5, 6, 7, None)), ('twin(Ts)(2001,2,3,4,5,6,7)', stamp(2001, 2, 3, 4, 5, 6, 7, None)), ("twin(Tok)('c',None)", N('symbol', 'c')),
    ('twin(list)([1])', N('list', (I(1),))), ('twin(tuple)((1,))', N('tuple', (I(1),))), ('twin(dict)(f=1)', N('struct', (('f', I(1)),))),
    ("twin(OD)([('g',1)])", N('struct', (('g', I(1)),))), ('twin(MyList)([2])', N('list', (I(2),))), ('twin(twin(int))(6)', I(6)), ("twin(MixTuple)((3,))", N('tuple', (I(3),))),
]

BAD = ['object()', 'set()', 'frozenset([1])', '1j', 'range(3)', 'iter([1])', "bytearray(b'a')", "memoryview(b'a')", 'int', 'len', 'datetime.date(2000,1,1)',
       'datetime.time(1,2)', 'td(1)', 'NotImplemented', 'Ellipsis', 'Mixin()', 'collections.Counter', "collections.deque()", "__import__('fractions').Fraction(1,2)",
       "__import__('array').array('b')", "__import__('collections').UserList([1])", "__import__('collections').ChainMap()"]

SHAPES1 = [
    ('%s', lambda x: x), ('[%s]', lambda x: N('list', (x,))), ('(%s,)', lambda x: N('tuple', (x,))), ("{'k':%s}", lambda x: N('struct', (('k', x),))),
    ("MyList([%s])", lambda x: N('list', (x,))), ("MyTuple((%s,))", lambda x: N('tuple', (x,))), ("MixTuple((%s,))", lambda x: N('tuple', (x,))), ("MyDict(f=%s)", lambda x: N('struct', (('f', x),))),
    ("OD([('',%s)])", lambda x: N('struct', (('', x),))), ("DD(int,{'a b':%s})", lambda x: N('struct', (('a b', x),))), ('DeepList([%s])', lambda x: N('list', (x,))),
    ("{MyStr('k'):[{'$10':(%s,)}]}", lambda x: N('struct', (('k', N('list', (N('struct', (('$10', N('tuple', (x,))),)),))),))),
]
SHAPES2 = [
    ('[%s,%s]', lambda x, y: N('list', (x, y))), ('(%s,%s)', lambda x, y: N('tuple', (x, y))), ("{'a':%s,'b':%s}", lambda x, y: N('struct', (('a', x), ('b', y)))),
    ('NT(%s,%s)', lambda x, y: N('tuple', (x, y))), ("[(%s,),{'z':%s}]", lambda x, y: N('list', (N('tuple', (x,)), N('struct', (('z', y),))))),
    ("({'z':[%s]},(%s,))", lambda x, y: N('tuple', (N('struct', (('z', N('list', (x,))),)), N('tuple', (y,))))),
]

# The same object in several places.
SHARED = [
    ('(lambda x: [x,x])(%s)', lambda x: N('list', (x, x))), ('(lambda x: (x,[x],x))(%s)', lambda x: N('tuple', (x, N('list', (x,)), x))),
    ("(lambda x: {'a':x,'b':{'a':x},'c':x})(%s)", lambda x: N('struct', (('a', x), ('b', N('struct', (('a', x),))), ('c', x)))),
    ('(lambda x: [[x]]*2)(%s)', lambda x: N('list', (N('list', (x,)),) * 2)), ('(lambda x: ((x,),)*3)(%s)', lambda x: N('tuple', (N('tuple', (x,)),) * 3)),
    ("(lambda y: {'p':y,'q':[y,y]})({'z':%s})", lambda x: N('struct', (('p', N('struct', (('z', x),))), ('q', N('list', (N('struct', (('z', x),)),) * 2))))),
    ("(lambda y: (lambda z: [z,z,y])([y,y]))((%s,))", lambda x: N('list', (N('list', (N('tuple', (x,)),) * 2),) * 2 + (N('tuple', (x,)),))),
    ("(lambda y: MyList([y,OD(a=y),y]))(OD(b=%s))", lambda x: N('list', (N('struct', (('b', x),)), N('struct', (('a', N('struct', (('b', x),))),)), N('struct', (('b', x),))))),
]

BOTH = [('[1]', N('list', (I(1),))), ('(1,)', N('tuple', (I(1),))), ("{'m':()}", N('struct', (('m', N('tuple', ())),)))]

# Plain containers changed between dumps.
MUTABLE = ['[1, "s", [2]]', '[]', '{}', '{"a": 1, "b": [True]}', 'MyList([(1,), None])', 'MyDict(a={"k": []})', 'OD([("x", []), ("y", {})])', '[{"a": [1, 2]}, ({"b": []},)]', 'list(range(30))', 'DD(list, q=[1])']
OPS = {'append': lambda v: v.append(9), 'insert': lambda v: v.insert(0, (9,)), 'pop': lambda v: v.pop(), 'del0': lambda v: v.__delitem__(0), 'set0': lambda v: v.__setitem__(0, {'n': 9}), 'reverse': lambda v: v.reverse(),
       'clear': lambda v: v.clear(), 'nest': lambda v: v.append([v[0]]), 'swap': lambda v: v.__setitem__(slice(None), v[1:] + v[:1]),
       'new': lambda v: v.__setitem__('new', 9), 'set': lambda v: v.__setitem__(next(iter(v)), 'set'), 'del': lambda v: v.__delitem__(next(iter(v))), 'update': lambda v: v.update(u=[1], w=None), 'again': lambda v: v.__setitem__('again', v[next(iter(v))])}


def plain_node(v):
    if v is None:
        return N('null')
    if isinstance(v, bool):
        return N('bool', v)
    if isinstance(v, int):
        return I(v)
    if isinstance(v, str):
        return S(v)
    if isinstance(v, list):
        return N('list', tuple(map(plain_node, v)))
    if isinstance(v, tuple):
        return N('tuple', tuple(map(plain_node, v)))
    return N('struct', tuple((k, plain_node(c)) for k, c in v.items()))


def spots(v):
    """The mutable containers in a value, outermost first."""
    out = [v] if isinstance(v, (list, dict)) else []
    for c in (v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else ()):
        out += spots(c)
    return out[:4]


def mutated(payload, rec):
    expr, steps = payload
    i = ion()
    obj = eval(expr, env())
    for fmt, spot, op in steps:
        for s in (False, True):
            i.dumps(obj, tuple_as_sexp=s, **FORMATS[fmt][1])
        at = spots(obj)
        if spot >= len(at) or op == 'set0' and isinstance(at[spot], dict):
            return
        try:
            OPS[op](at[spot])
        except (AttributeError, IndexError, StopIteration, TypeError, KeyError):
            return
        for name, kw in FORMATS:
            for s in (False, True):
                want = resolve(plain_node(obj), s)
                data = i.dumps(obj, tuple_as_sexp=s, **kw)
                got = from_py(i.loads(data))
                if not same(want, got):
                    raise Violation('%s of %s after %r gives %r, which loads to\n  %r\nthe table says\n  %r' % (name, expr, steps, data[:200], got, want))
                rec.trans(2)
    rec.trace()
    rec.state((expr, steps))
    rec.outcome('mutated')


def resolve(n, sexp):
    """Replaces tuples by the requested type."""
    a, t, p = n
    if t == 'tuple':
        t = 'sexp' if sexp else 'list'
    if p is not None:
        if t in ('list', 'sexp'):
            p = tuple(resolve(c, sexp) for c in p)
        elif t == 'struct':
            p = tuple((f, resolve(c, sexp)) for f, c in p)
    return (a, t, p)


def same(want, got):
    if want[0] != got[0] or want[1] != got[1]:
        return False
    p, q = want[2], got[2]
    if p is None or q is None:
        return p is q
    t = want[1]
    if t == 'timestamp' and isinstance(p[7], tuple) and p[7][0] == 'us':
        f = q[7]
        if f is None:
            us = 0
        elif not isinstance(f[0], int):
            return False
        else:
            us = f[0] * 10 ** 6 / 10 ** f[1]
        return p[:7] == q[:7] and p[8] == q[8] and us == p[7][1]
    if t in ('list', 'sexp'):
        return len(p) == len(q) and all(map(same, p, q))
    if t == 'struct':
        return len(p) == len(q) and all(f == g and same(x, y) for (f, x), (g, y) in zip(p, q))
    return p == q


FORMATS = (('binary', {'binary': True}), ('text', {'binary': False}), ('indented', {'binary': False, 'indent': ' ', 'omit_version_marker': True}))


def value(payload, rec):
    expr, node, sexp, stream = payload
    i = ion()
    want = resolve(node, sexp)
    wants = list(want[2]) if stream else [want]
    seen = []
    for name, kw in FORMATS:
        obj = eval(expr, env())
        try:
            data = i.dumps(obj, tuple_as_sexp=sexp, sequence_as_stream=stream, **kw)
        except Exception as e:
            raise Violation('%s dumps(%s) raises %s: %s' % (name, expr, type(e).__name__, e))
        fp = BytesIO()
        i.dump(obj, fp, tuple_as_sexp=sexp, sequence_as_stream=stream, **kw)
        if fp.getvalue() != (data if isinstance(data, bytes) else data.encode('utf-8')):
            raise Violation('%s dump writes %r, dumps returns %r' % (name, fp.getvalue()[:200], data[:200]))
        try:
            backs = i.loads(data, single_value=False)
            got = [from_py(b) for b in backs]
        except Exception as e:
            raise Violation('%s output %r of %s does not load: %s: %s' % (name, data[:200], expr, type(e).__name__, e))
        if len(got) != len(wants) or not all(map(same, wants, got)):
            raise Violation('%s: %s (tuple_as_sexp=%s) gives %r, which loads to\n  %r\nthe table says\n  %r' % (name, expr, sexp, data[:200], got, wants))
        seen.append([bag(g) for g in got])
        rec.trans(3)
    if any(s != seen[0] for s in seen):
        raise Violation('%s loads differently from different formats: %r' % (expr, seen))
    rec.trace(3)
    rec.state((expr, sexp, stream))
    rec.outcome(want[1])


def bad(payload, rec):
    expr, sexp = payload
    i = ion()
    for name, kw in FORMATS:
        obj = eval(expr, env())
        try:
            data = i.dumps(obj, tuple_as_sexp=sexp, **kw)
        except TypeError:
            rec.trans()
            continue
        except Exception as e:
            raise Violation('%s dumps(%s) raises %s: %s instead of TypeError' % (name, expr, type(e).__name__, e))
        raise Violation('%s dumps(%s) gives %r instead of TypeError' % (name, expr, data[:200]))
    rec.trace(3)
    rec.state((expr, sexp))
    rec.outcome('TypeError')


def expr_of(n):
    """(expression, node) for the plain Python value of a scalar, or None."""
    a, t, p = n
    if p is None or a:
        return None
    if t in ('bool', 'int'):
        return repr(p), n
    if t == 'float':
        x = bits_float(p)
        return (repr(x) if x == x and x not in (float('inf'), float('-inf')) else 'nan' if x != x else 'inf' if x > 0 else '-inf'), n
    if t == 'decimal':
        return 'Decimal(%r)' % ('%s%dE%d' % ('-' if p[0] else '', p[1], p[2])), n
    if t == 'string':
        return repr(p), n
    if t == 'symbol':
        return 'Tok(%r,None)' % (p,), n
    if t in ('blob', 'clob'):
        return repr(p), N('blob', p)
    if t == 'timestamp':
        prec, y, mo, d, h, mi, s, frac, off = p
        if prec in 'YMD':
            return 'T(%s)' % ','.join(map(repr, p)), n
        us = 0 if frac is None or frac[1] > 6 else frac[0] * 10 ** (6 - frac[1])
        if y in (1, 9999) and off:
            return None
        return 'dt(%d,%d,%d,%d,%d,%d,%d%s)' % (y, mo, d, h, mi, s or 0, us, '' if off is None else ',tz(%d)' % off), stamp(y, mo, d, h, mi, s or 0, us, off)
    return None


def g_dense():
    part, k = [], 0
    for n in V.dense_scalars():
        x = expr_of(n)
        if x is None:
            continue
        part.append(x)
        if len(part) == 24:
            e = ','.join(x for x, _ in part)
            ns = tuple(m for _, m in part)
            k += 1
            if k % 3 == 0:
                yield '{%s}' % ','.join("'f%d':%s" % (j, x) for j, (x, _) in enumerate(part)), N('struct', tuple(('f%d' % j, m) for j, m in enumerate(ns))), False, False
            else:
                yield ('[%s]' if k % 3 == 1 else '(%s)') % e, N('list' if k % 3 == 1 else 'tuple', ns), k % 2 == 0, False
            part = []


def g_large():
    for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 5000]:
        yield 'list(range(%d))' % n, N('list', tuple(I(k) for k in range(n)))
        yield 'tuple(range(%d))' % n, N('tuple', tuple(I(-1) if k < 0 else I(k) for k in range(n)))
        yield "{'k%%d' %% k: k for k in range(%d)}" % n, N('struct', tuple(('k%d' % k, I(k)) for k in range(n)))
        yield "[Tok('s%%d' %% k, None) for k in range(%d)]" % n, N('list', tuple(N('symbol', 's%d' % k) for k in range(n)))
        yield "[(), [], {}] * %d" % n, N('list', (N('tuple', ()), N('list', ()), N('struct', ())) * n)
        yield "'x' * %d" % n, S('x' * n)
        yield "['\u20ac' * %d]" % n, N('list', (S('\u20ac' * n),))
        yield "b'\\xff' * %d" % n, N('blob', b'\xff' * n)
        yield "{'k' * %d: (None,)}" % n, N('struct', (('k' * n, N('tuple', (N('null'),))),))
        yield "Tok('q' * %d, None)" % n, N('symbol', 'q' * n)
        yield 'MyList([True] * %d)' % n, N('list', (N('bool', True),) * n)
        yield 'MyTuple((1.5,) * %d)' % n, N('tuple', (N('float', fbits(1.5)),) * n)
        yield "MyDict({str(k): {str(k): [k]} for k in range(%d)})" % n, N('struct', tuple((str(k), N('struct', ((str(k), N('list', (I(k),))),))) for k in range(n)))
        if 0 < n < 70:
            for pat in ('l', 't', 'd', 'lt', 'td', 'ldt'):
                v = I(n)
                for k in range(n):
                    c = pat[k % len(pat)]
                    v = N('list', (v, N('null'))) if c == 'l' else N('tuple', (v,)) if c == 't' else N('struct', (('k', v),))
                yield 'nest(%r,%d)' % (pat, n), v


def nest(pat, n):
    v = n
    for k in range(n):
        c = pat[k % len(pat)]
        v = [v, None] if c == 'l' else (v,) if c == 't' else {'k': v}
    return v


KINDS = {'value': value, 'bad': bad, 'mutated': mutated}


def trees(n, depth=5):
    """(expression, node) of every tree with n nodes."""
    if n == 1:
        for x in (('1', I(1)), ("Tok('a',None)", N('symbol', 'a')), ('[]', N('list', ())), ('()', N('tuple', ())), ('{}', N('struct', ())), ('None', N('null'))):
            yield x
        return
    for kids in forests(n - 1):
        e = ','.join(k[0] for k in kids)
        ns = tuple(k[1] for k in kids)
        yield '[%s]' % e, N('list', ns)
        yield '(%s,)' % e, N('tuple', ns)
        yield '{%s}' % ','.join("'f%d':%s" % (j, k[0]) for j, k in enumerate(kids)), N('struct', tuple(('f%d' % j, k[1]) for j, k in enumerate(kids)))


def forests(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k):
            for rest in forests(n - k):
                yield (first,) + rest


def jobs(tier):
    out = [('value', ('one', i, 8)) for i in range(8)]
    out += [('value', ('two', i, 32, 3 if tier == 'quick' else 6)) for i in range(32)]
    out += [('value', ('tree', i, 16, 4 if tier == 'quick' else 5)) for i in range(16)]
    out += [('value', ('dense', i, 16)) for i in range(16)] + [('value', ('large', i, 16)) for i in range(16)]
    out += [('value', ('shared', i, 8)) for i in range(8)] + [('value', ('same', i, 4)) for i in range(4)]
    out += [('mutated', (tier, i, 16)) for i in range(16)]
    out += [('bad', ())]
    return out


def cases(kind, args):
    if kind == 'bad':
        for b in BAD:
            for e, _ in SHAPES1:
                for s in (False, True):
                    yield (e % b, s)
            for e, _ in SHAPES2:
                yield (e % (b, '1'), False)
                yield (e % ("'a'", b), True)
        return
    what, i, n = args[:3]
    if kind == 'mutated':
        one = [(f, spot, op) for f in range(3) for spot in range(4) for op in sorted(OPS)]
        two = [(x, y) for x in one for y in one if (what != 'quick' and x[0] == 0) or x[0] == 0 == y[0] and x[1] < 2 and y[1] < 2]
        for p in V.shard(((e, h) for e in MUTABLE for h in [(x,) for x in one] + two), i, n):
            yield p
        return
    if what == 'one':
        gen = ((e.replace('%s', x), f(m), s, st) for x, m in ATOMS for e, f in SHAPES1 for s in (False, True) for st in (False, True))
    elif what == 'two':
        at = ATOMS
        if args[3] == 3:   # quick: three shapes each, all six over the grid
            gen = ((e % (x, y), f(m, o), (a + b) % 2 == 0, False) for a, (x, m) in enumerate(at) for b, (y, o) in enumerate(at)
                   for k, (e, f) in enumerate(SHAPES2) if (a + b + k) % 2 == 0)
        else:
            gen = ((e % (x, y), f(m, o), s, False) for x, m in at for y, o in at for e, f in SHAPES2 for s in (False, True))
    elif what == 'same':
        gen = ((e % (x, y), f(m, o), s, False) for x, m in SAME for y, o in SAME for e, f in SHAPES2[:3] for s in (False, True))
    elif what == 'dense':
        gen = g_dense()
    elif what == 'shared':
        gen = ((e % x, f(m), s, st) for x, m in ATOMS + BOTH for e, f in SHARED for s in (False, True) for st in (False, True))
    elif what == 'large':
        gen = ((e, m, s, st) for e, m in g_large() for s in (False, True) for st in (False, True))
    else:
        gen = ((e, m, s, False) for k in range(1, args[3] + 1) for e, m in trees(k) for s in (False, True))
    for e, m, s, st in V.shard(gen, i, n):
        if st:
            r = resolve(m, s)
            # Only plain lists and tuples (and Ion-natured lists) are treated as streams of their elements.
            if r[1] not in ('list', 'sexp') or r[2] is None:
                continue
            if not all(V.top_ok(c) for c in r[2]):
                continue
        elif not V.top_ok(resolve(m, s)):
            continue
        yield (e, m, s, st)
