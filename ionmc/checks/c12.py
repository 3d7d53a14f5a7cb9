# -*- coding: utf-8 -*-
"""C12: explicit-state exploration of the writers' event protocol."""
from itertools import product

from .. import refbin, reftext
from ..harness import Violation
from ..model import ion, N, canon
from ..refsym import RefError, Unspecified
from .c01 import TABLES, get_imports

PID = 'C12'
RULE = ('Every event sequence up to the depth over an alphabet of scalars, typed nulls, annotated values, containers, ends, version markers and '
        'stream ends, sent to fresh text, pretty-printing and binary writers (with and without imports), next to a protocol model (stack of open containers). After '
        'every legal prefix each event of an alphabet of illegal ones is tried as well. Statuses are compared event by event; with the containers '
        'closed and a stream end the bytes are decoded by the independent decoders and compared with the events. Types: '
        'every (event type, Ion type, value) combination in every context. State = distinct (protocol state, last event), '
        'transition = event sent.')
ASSUMPTIONS = ['a field name given outside a struct, the Ion type and annotations of a container end, and int for bool, are not judged beyond the output still being right',
               'a writer is not used any more after it rejected an event']

A_ = ('b',)
SCALARS = {
    'i': N('int', 1), 'y': N('symbol', 'a'), 'S': N('string', 'x', 'b'), 'n': N('list', None), 'N': N('null', None, 'name'), 'f': N('float', '3ff8000000000000'),
    'd': N('decimal', (1, 0, -1)), 't': N('timestamp', ('D', 2000, 1, 2, None, None, None, None, None)), 'c': N('clob', b'"\n'), 'B': N('blob', b'\x00\xff'), 'z': N('symbol', 0), 'T': N('bool', True),
    'q': N('string', "'"), 'm': N('symbol', None, 'a', 'name', 'a'),
}
SCALARS.update({'X': N('string', 'x\u20ac' * 2500), 'Y': N('blob', bytes(range(256)) * 70, 'b'), 'Z': N('symbol', 'long' * 100, 'long' * 100), 'I': N('int', -3 ** 700), 'C': N('clob', b'c"' * 64)})
SCALARS.update({'K': None, 'G': N('blob', bytes(range(256)) * 4200), 'H': N('string', 'h\u20ac' * 40000), 'Q': N('symbol', 'q' * 70000, 'r' * 9000)})      # K: a symbol not seen before
STARTS = {'[': ('list', ()), '(': ('sexp', ()), '{': ('struct', ()), 'L': ('list', ('b',)), 'P': ('sexp', ('a', 'b')), 'D': ('struct', ('b',))}
NAMES = ('f', 'a', 'f', 'name')
WRITERS = {'text': None, 'pretty': None, 'bin': 'none', 'bin-t2': 't2'}
BAD = ('?start', '?list', '?type', '?none', '?null', '?notype', '?inc')


class Model(object):
    """The protocol, and what the accepted events denote."""

    def __init__(self, writer):
        self.binary = writer[:3] == 'bin'
        self.top = []          # values of the stream
        self.stack = []        # (type, annots, items, field)
        self.dirty = False     # values since the last stream end
        self.seen = 0          # values so far

    def state(self):
        return tuple(s[0] for s in self.stack) + (self.dirty,)

    def scalar(self, ev):
        return SCALARS[ev] or N('symbol', 'k%d' % self.seen, 'a%d' % (self.seen // 2))

    def in_struct(self):
        return bool(self.stack) and self.stack[-1][0] == 'struct'

    def legal(self, ev):
        if ev[0] == '?':
            return False
        ev, mod = ev[0], ev[1:]
        if ev == ']':
            return bool(self.stack)
        if ev == '.':
            return not self.stack
        if ev == 'v':
            return not self.stack and not (self.binary and self.dirty)
        return not (self.in_struct() and mod == '-')

    def add(self, field, node):
        if self.stack:
            s = self.stack[-1]
            s[2].append((field, node) if s[0] == 'struct' else node)
        else:
            self.top.append(node)

    def step(self, ev):
        """-> whether the writer must report completion."""
        ev = ev[0]
        if ev == ']':
            t, a, items, f = self.stack.pop()
            self.add(f, (a, t, tuple(items)))
        elif ev == '.':
            self.dirty = False
            return True
        elif ev != 'v':
            self.dirty = True
            f = self.field()
            if ev in SCALARS:
                self.add(f, self.scalar(ev))
                self.seen += 1
            else:
                t, a = STARTS[ev]
                self.stack.append((t, a, [], f))
        return not self.binary and not self.stack

    def field(self):
        return NAMES[len(self.stack[-1][2]) % len(NAMES)] if self.in_struct() else None

    def event(self, ev):
        """The event as the API wants it. Suffix '+' gives a field name where none belongs, '-' none where one does."""
        from ..model import to_events, sym_to_py
        i = ion()
        E, T, IonEvent = i.core.IonEventType, i.core.IonType, i.core.IonEvent
        f = self.field()
        mod, code = ev[1:], ev[0]
        if code == '?':
            f = f and sym_to_py(f)
            return {'?start': lambda: IonEvent(E.CONTAINER_START, T.INT, None, f), '?list': lambda: IonEvent(E.SCALAR, T.LIST, [1], f),
                    '?type': lambda: IonEvent(E.SCALAR, T.STRING, 1, f), '?none': lambda: None, '?null': lambda: IonEvent(E.SCALAR, T.NULL, 1, f),
                    '?notype': lambda: IonEvent(E.SCALAR, None, 1, f), '?inc': lambda: i.core.ION_STREAM_INCOMPLETE_EVENT}[ev]()
        if code == ']':
            return IonEvent(E.CONTAINER_END, i.by_name[self.stack[-1][0]] if self.stack and mod != '+' else None)
        if code == '.':
            return i.core.ION_STREAM_END_EVENT
        if code == 'v':
            return i.core.ION_VERSION_MARKER_EVENT
        if mod == '+':
            f = f or 'a'
        elif mod == '-':
            f = None
        if code in SCALARS:
            e = to_events(self.scalar(code), f, len(self.stack))[0]
        else:
            t, a = STARTS[code]
            e = IonEvent(E.CONTAINER_START, i.by_name[t], None, f, a, len(self.stack))
        if mod == 't' and f is not None:
            e = e.derive_field_name(i.sym.SymbolToken(f, None))
        return e


def make(writer):
    if writer[:3] == 'bin':
        from amazon.ion.writer_binary import binary_writer
        tabs, _ = get_imports(WRITERS[writer])
        return binary_writer(tabs)
    from amazon.ion.writer_text import text_writer
    return text_writer(indent='  ') if writer == 'pretty' else text_writer()


class Rejected(Exception):
    pass


def send(w, e):
    """Sends an event and drains the writer -> (bytes, completion)."""
    from amazon.ion.writer import WriteEventType as W
    out = b''
    try:
        r = w.send(e)
        while r.type is W.HAS_PENDING:
            out += r.data
            r = w.send(None)
    except Exception as x:
        raise Rejected('%s: %s' % (type(x).__name__, x))
    out += r.data
    if r.type is not W.COMPLETE and r.type is not W.NEEDS_INPUT:
        raise Violation('status %r' % (r.type,))
    return out, r.type is W.COMPLETE


def decode(writer, data):
    if writer[:3] == 'bin':
        cat = {}
        for name, v, texts in TABLES[WRITERS[writer]]:
            cat.setdefault(name, {})[v] = list(texts)
        return refbin.decode_stream(data, cat, minimal=True) if data else []
    return reftext.parse_stream(data.decode('utf-8'))


def compare(writer, data, m, seq):
    try:
        got = decode(writer, data)
    except (RefError, Unspecified) as e:
        raise Violation('%s after %s wrote %r, which is not valid: %s' % (writer, seq, data, e))
    if [canon(g) for g in got] != [canon(n) for n in m.top]:
        raise Violation('%s after %s wrote %r, which denotes %r, not %r' % (writer, seq, data, got, m.top))


def run(writer, seq, rec):
    """Sends a sequence; -> (writer, model, bytes), or None when its last event was rejected, as it had to be."""
    m, w, out = Model(writer), make(writer), []
    for k, ev in enumerate(seq):
        ok, e = m.legal(ev), m.event(ev)
        before = m.state()
        try:
            data, complete = send(w, e)
        except Rejected as x:
            if ok and ev[1:] != '+':
                raise Violation('%s rejects %s (event %d of %s): %s' % (writer, ev, k, seq, x))
            return None
        if not ok:
            raise Violation('%s accepts %s (event %d of %s)' % (writer, ev, k, seq))
        if complete != m.step(ev):
            raise Violation('%s reports %scompletion after %s (event %d of %s)' % (writer, '' if complete else 'no ', ev, k, seq))
        out.append(data)
        rec.trans()
        rec.state((writer, before, ev))
    return w, m, b''.join(out)


def seq(payload, rec):
    """A legal sequence, completed by ends and a stream end (a part of it may be illegal for binary writers only)."""
    for writer in sorted(WRITERS):
        r = run(writer, payload, rec)
        if r is None:
            continue
        w, m, out = r
        if not m.stack and (not m.binary or payload[-1:] == ('.',)):
            compare(writer, out, m, payload)
        for ev in [']'] * len(m.stack) + ['.']:
            try:
                data, complete = send(w, m.event(ev))
            except Rejected as x:
                raise Violation('%s rejects %s closing %s: %s' % (writer, ev, payload, x))
            if complete != m.step(ev):
                raise Violation('%s reports %scompletion after %s closing %s' % (writer, '' if complete else 'no ', ev, payload))
            out += data
        compare(writer, out, m, payload)
        rec.trace()
    rec.outcome('%d values' % len(payload))


def illegal(payload, rec):
    """After a legal sequence every event the context forbids is rejected, and so is the wrong kind of draining."""
    from amazon.ion.writer import WriteEventType as W
    for writer in sorted(WRITERS):
        m = Model(writer)
        for ev in payload:
            if not m.legal(ev):
                break
            m.step(ev)
        else:
            for ev in (']', '.', 'v') + BAD + tuple(c + '-' for c in ('i', 'y', 'S', 'n', '[', 'D')):
                if not m.legal(ev):
                    if run(writer, payload + (ev,), rec) is not None:
                        raise Violation('%s accepts %s after %s' % (writer, ev, payload))
                    rec.outcome('rejected ' + ev)
            # Pending output is to be drained first.
            for ev in ('i', '[', 'S', '.', ']'):
                if not m.legal(ev):
                    continue
                w, m2, _ = run(writer, payload, rec)
                r = w.send(m2.event(ev))
                n = 0
                while r.type is W.HAS_PENDING:
                    n += 1
                    w2, m3, _ = run(writer, payload, rec)
                    r2 = w2.send(m3.event(ev))
                    for _ in range(n - 1):
                        r2 = w2.send(None)
                    if r2.type is not W.HAS_PENDING:
                        raise Violation('%s has other pending output after %s %s' % (writer, payload, ev))
                    try:
                        w2.send(m3.event('i'))
                    except Exception:
                        rec.outcome('rejected while pending')
                    else:
                        raise Violation('%s accepts an event with output of %s pending after %s' % (writer, ev, payload))
                    r = w.send(None)
            rec.trace()


def blocking(payload, rec):
    """blocking_writer writes the same, and returns the final statuses."""
    from io import BytesIO
    from amazon.ion.writer import blocking_writer, WriteEventType as W
    for writer in sorted(WRITERS):
        r = run(writer, payload, rec)
        if r is None:
            continue
        fp, m = BytesIO(), Model(writer)
        w = blocking_writer(make(writer), fp)
        for ev in payload:
            status = w.send(m.event(ev))
            if status is not (W.COMPLETE if m.step(ev) else W.NEEDS_INPUT):
                raise Violation('blocking_writer(%s) returns %r after %s of %s' % (writer, status, ev, payload))
            rec.trans()
        if fp.getvalue() != r[2]:
            raise Violation('blocking_writer(%s) writes %r for %s, the writer %r' % (writer, fp.getvalue(), payload, r[2]))
        rec.trace()
        rec.outcome('blocking')


def gvalues():
    """[(name, value, {ion types it is right for}, {types not judged})]"""
    i = ion()
    st, D, T = i.st, i.Decimal, i.by_name
    S = i.sym.SymbolToken
    ts = i.core.Timestamp(2000, 1, 2, precision=i.core.TimestampPrecision.DAY)
    dt = i.datetime.datetime(2000, 1, 2, 3, 4, 5, 6)
    anyof = lambda *ts: set(ts)
    return [
        ('none', None, set(T), set()),
        ('true', True, anyof('bool'), anyof('int')), ('false', False, anyof('bool'), anyof('int')),
        ('0', 0, anyof('int'), anyof('bool')), ('-1', -1, anyof('int'), anyof('bool')), ('2**70', 2 ** 70, anyof('int'), anyof('bool')),
        ('1.5', 1.5, anyof('float'), set()), ('nan', float('nan'), anyof('float'), set()), ('0.0', 0.0, anyof('float'), set()),
        ('D1.50', D('1.50'), anyof('decimal'), set()), ('D-0', D('-0'), anyof('decimal'), set()), ('Dnan', D('NaN'), set(), set()), ('Dinf', D('-Infinity'), set(), set()), ('Dsnan', D('sNaN'), set(), set()),
        ('ts', ts, anyof('timestamp'), set()), ('dt', dt, anyof('timestamp'), set()), ('date', i.datetime.date(2000, 1, 1), set(), set()),
        ('str', 'ab', anyof('string', 'symbol'), set()), ('empty', '', anyof('string', 'symbol'), set()),
        ('token', S('ab', None), anyof('symbol'), set()), ('token0', S(None, 0), anyof('symbol'), set()),
        ('bytes', b'ab', anyof('clob', 'blob'), set()), ('empty bytes', b'', anyof('clob', 'blob'), set()), ('bytearray', bytearray(b'ab'), set(), anyof('clob', 'blob')),
        ('list', [], set(), set()), ('list1', [1], set(), set()), ('tuple', (), set(), set()), ('dict', {}, set(), set()), ('obj', object(), set(), set()), ('type', int, set(), set()), ('complex', 1j, set(), set()),
        ('pynull', st.IonPyNull(), set(), set(T)),
        ('pyint', st.IonPyInt(5), anyof('int'), anyof('bool')), ('pybool', st.IonPyBool(True), anyof('bool'), anyof('int')), ('pyfloat', st.IonPyFloat(2.5), anyof('float'), set()),
        ('pydec', st.IonPyDecimal('2.50'), anyof('decimal'), set()), ('pytext', st.IonPyText('ab'), anyof('string', 'symbol'), set()),
        ('pysym', st.IonPySymbol('ab', None, None), anyof('symbol'), set()), ('pybytes', st.IonPyBytes(b'ab'), anyof('clob', 'blob'), set()),
        ('pyts', st.IonPyTimestamp(2000, 1, 2, precision=i.core.TimestampPrecision.DAY), anyof('timestamp'), set()),
        ('pylist', st.IonPyList([]), set(), set()), ('pydict', st.IonPyDict(), set(), set()),
    ]


def denotes(t, v):
    i = ion()
    if v is None:
        return N(t, None)
    if t == 'bool':
        return N(t, bool(v))
    if t == 'int':
        return N(t, int(v))
    if t == 'float':
        from ..model import F
        return F(float(v))
    if t == 'decimal':
        sg, digs, exp = v.as_tuple()
        return N(t, (sg, int(''.join(map(str, digs))), exp))
    if t == 'timestamp':
        if type(v) is i.datetime.datetime:
            return N(t, ('s', 2000, 1, 2, 3, 4, 5, (6, 6), None))
        return N(t, ('D', 2000, 1, 2, None, None, None, None, None))
    if t == 'symbol':
        text = v if isinstance(v, str) else v.text
        return N(t, 0 if text is None else str(text))
    if t == 'string':
        return N(t, str(v))
    return N(t, bytes(v))


def types(payload, rec):
    """Every value under every Ion type and event type, in every context."""
    et, t, k, ctx, writer = payload
    i = ion()
    E, IonEvent = i.core.IonEventType, i.core.IonEvent
    name, v, right, open_ = gvalues()[k]
    seq0 = ctx
    r = run(writer, seq0, rec)
    w, m, out = r
    f = m.field()
    e = IonEvent(getattr(E, et), None if t == 'none' else i.by_name[t], v, f)
    is_c = t in ('list', 'sexp', 'struct')
    if et == 'SCALAR':
        expect = True if t in right else None if t in open_ else False
    else:
        expect = (True if v is None else None) if is_c else False
    try:
        data, _ = send(w, e)
    except Rejected as x:
        if expect:
            raise Violation('%s rejects %s %s of %s in %s: %s' % (writer, et, t, name, ctx, x))
        rec.outcome('rejected')
        return
    if expect is False:
        raise Violation('%s accepts %s %s of %s in %s, writing %r' % (writer, et, t, name, ctx, data))
    if name == 'pynull':
        return
    m.dirty = True
    if et == 'SCALAR':
        m.add(f, denotes(t, v))
    else:
        m.stack.append((t, (), [], f))
    out += data
    for ev in [']'] * len(m.stack) + ['.']:
        out += send(w, m.event(ev))[0]
        m.step(ev)
    compare(writer, out, m, payload)
    rec.trace()
    rec.trans()
    rec.state(payload)
    rec.outcome('accepted')


KINDS = {'seq': seq, 'illegal': illegal, 'types': types, 'blocking': blocking, 'long': seq, 'longillegal': illegal, 'longblocking': blocking}

WIDE = ('i', 'y', 'S', 'n', 'N', 'f', 'd', 't', 'c', 'B', 'z', 'T', 'q', 'm', '[', '(', '{', 'L', 'P', 'D', ']', '.', 'v', 'y+', '[+', 'yt', ']+')
MID = ('i', 'y', 'S', '[', '{', 'P', ']', '.', 'v')
NARROW = ('y', '{', 'L', ']', '.')
ALPHABETS = {'wide': WIDE, 'mid': MID, 'narrow': NARROW}


def jobs(tier):
    q = tier == 'quick'
    out = []
    for a, d in (('wide', 3 if q else 4), ('mid', 5 if q else 6), ('narrow', 8 if q else 10)):
        out += [('seq', (a, d, i, 24)) for i in range(24)]
    out += [('illegal', (a, d, i, 8)) for a, d in (('mid', 3 if q else 4), ('narrow', 4 if q else 6)) for i in range(8)]
    out += [('blocking', (a, d, i, 4)) for a, d in (('wide', 2 if q else 3), ('mid', 3 if q else 4)) for i in range(4)]
    out += [('types', (i, 8)) for i in range(8)]
    out += [(k, (tier, i, 8)) for k in ('long', 'longillegal', 'longblocking') for i in range(8)]
    return out


def sequences(alphabet, depth):
    """Every sequence that is legal for a text writer (a binary writer rejects some of them, at a version marker)."""
    def go(seq, n):
        if seq:
            yield tuple(seq)
        if n == 0:
            return
        for ev in alphabet:
            m = Model('text')
            for s in seq:
                m.step(s)
            if m.legal(ev) and not (ev[1:] == 't' and not m.in_struct()) and not (ev[1:] == '+' and m.in_struct() and ev[0] != ']'):
                for x in go(seq + [ev], n - 1):
                    yield x
    return go([], depth)


def g_long(tier):
    """Deep nests, many siblings, many segments and long values, whole and in prefixes."""
    D = list(range(9, 70)) + [90, 99, 100, 101, 120, 126, 127, 128, 129, 150]
    for d in D if tier != 'quick' else D[::3] + [100, 127, 128]:
        for pat in ('[', '(', '{', 'LD', '[{(', 'PD[', '{{L'):
            o = tuple(pat[k % len(pat)] for k in range(d))
            yield o
            yield o + ('y',)
            yield o + ('X',) if d % 2 else o + ('S', 'Y', ']', 'Z')
            yield ('i',) + sum(((c, 'n') if k % 3 else (c,) for k, c in enumerate(o)), ()) + sum(((']', 'Sydz'[k % 4]) for k in range(d)), ())
            yield sum(((c, 'y', ']', '.', 'i') for c in o), ())
            yield sum(((c, c, ']', 'S', ']') for c in o), ('(',))
    codes = sorted(set(SCALARS) - set('KGHQ'))
    for n in (9, 13, 14, 15, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 500) if tier != 'quick' else (13, 14, 32, 65, 127, 128, 257, 400):
        for c in ('y', 'n', 'z', 'S', 'T', ''.join(x for x in codes if x not in 'XYZIC')):
            v = tuple(c[k % len(c)] for k in range(n))
            yield v
            for o in '[({D':
                yield (o,) + v + (']', 'i', '.', 'q')
            yield sum(((x, '.') for x in v), ())
            yield sum((('v', x, '.') for x in v), ())
            yield sum(((x, '.', 'v', '.') if k % 4 == 2 else (x, '.', '.') for k, x in enumerate(v)), ())
    for n in (1000, 1024, 4100) if tier == 'quick' else (1000, 1023, 1024, 1025, 4095, 4096, 4097, 8200, 20000, 66000):
        for c in ('K', 'yS', '[]', '{K]'):
            v = tuple(c[k % len(c)] for k in range(n - n % len(c)))
            yield v + ('y', '.', 'y')
            yield ('[', '{') + v + (']', 'K', ']')
            yield v[:200] + sum(((x, '.') for x in v), ()) if ']' not in c else sum((tuple(c) + ('.',) for _ in range(n // 2)), ())
    for c in 'GHQ':
        yield ('y', c, 'K')
        yield tuple('[({') + (c, c, 'K') + (']',) * 3 + ('.', c)
    for c in 'XYZIC':
        for o in ('', '[', '{', 'L(', 'D[{', '[' * 14):
            yield tuple(o) + (c,)
            yield tuple(o) + (c, 'i', c)
            yield tuple(o) + (c,) + (']',) * len(o) + ('.', c, 'y', '.', 'y')
            yield tuple(o) + ('y', c) * 12
            yield ('Z', '.') + tuple(o) + ('Z', c)


def cases(kind, args):
    if kind in ('long', 'longillegal', 'longblocking'):
        tier, i, n = args
        for k, s in enumerate(g_long(tier)):
            if k % n == i and (kind == 'long' or (k // n) % (7 if kind == 'longblocking' else 11) == 0):
                yield s if kind != 'longillegal' else s[:60]
        return
    if kind == 'types':
        i, n = args
        k = 0
        for c in product(('SCALAR', 'CONTAINER_START'), ('none', 'null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp', 'struct'),
                         range(len(gvalues())), ((), ('[',), ('{',), ('i', '.')), sorted(WRITERS)):
            k += 1
            if k % n == i:
                yield c
        return
    a, d, i, n = args
    for k, s in enumerate(sequences(ALPHABETS[a], d)):
        if k % n == i:
            yield s
