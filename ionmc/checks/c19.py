# -*- coding: utf-8 -*-
"""C19: histories of segments, dumps and concatenations; every pattern of read sizes; single values."""
import io
from io import BytesIO, StringIO
from itertools import product

from .. import drive as D, refbin, reftext, alpha
from ..harness import Violation
from ..model import ion, to_py, to_events, from_py, canon, Mismatch, N, L, SX, ST, F, ann
from ..refsym import RefError, Unspecified
from .c01 import TABLES, get_imports
from .c07 import keys
from .c09 import CAT, ITEMS, Model, render

PID = 'C19'
RULE = ('Every sequence, to the depth, of segments (streams of values with overlapping new symbols, empty ones included) given to one writer, text, pretty or binary under every import list; of dumps with different imports to one file; '
        'of whole documents with symbol tables, imports and appended tables; the result must decode (independent decoders and load) to the concatenation, each binary segment being what a fresh writer gives. Every way of cutting the data of a file into reads for short '
        'documents, every one or two cuts and every constant size for longer ones, in files that return less than asked for, and every buffer size of the blocking reader. Every sequence of values and system values up to the depth for single_value. '
        'State = distinct history, transition = segment, dump or load.')
ASSUMPTIONS = ['text streams that are concatenated are separated by white space', 'a file object supports seek(0)']

SEGS = [
    (), (N('symbol', 'a'),), (N('symbol', 'b'),), (N('symbol', 'b', 'a'),), (N('int', 1, 'q'), N('symbol', 'q')), (ST(('f', N('symbol', 'a'))),), (L(N('symbol', 'zz'), N('symbol', 'f')),),
    (N('int', 1),), (N('null'), N('string', 's')), (N('symbol', 'name'),), (ST(('a', N('symbol', 'b', 'c')), ('a', L())), SX(N('symbol', '-'), N('int', 1))), (N('symbol', ''), N('symbol', 0)),
]
NSEG = len(SEGS)      # those put into every order; larger ones come up in long histories
SEGS += [tuple(N('symbol', 's%d' % j, 's%d' % (j + 1)) for j in range(300)), (N('blob', bytes(range(256)) * 300), N('symbol', 'a')), (L(*[N('string', 'x' * (j % 20)) for j in range(3000)]),),
         tuple(N('int', j) for j in range(1100)), (N('string', '\u20ac' * 70000, 'b'), N('symbol', 's299'))]
WRITERS = ['text', 'pretty', 'none', 't1', 't2', 'big']


def ref_catalog(opts):
    cat = {}
    for o in opts:
        for name, ver, texts in TABLES[o]:
            cat.setdefault(name, {})[ver] = list(texts)
    return cat


def compare(what, data, nodes, text, cat):
    """Decodes with the independent decoder and loads."""
    i = ion()
    try:
        if text:
            got = reftext.parse_stream(data.decode('utf-8'), cat)
        else:
            got = refbin.decode_stream(data, cat) if data else []
    except (RefError, Unspecified) as e:
        raise Violation('%s gives %r, which is not valid: %s' % (what, data[:400], e))
    if [canon(g) for g in got] != [canon(n) for n in nodes]:
        raise Violation('%s gives %r, which denotes %r, not %r' % (what, data[:400], got, nodes))
    loaded = i.load(BytesIO(data), catalog=D.catalog(cat), single_value=False)
    try:
        got = [canon(from_py(v)) for v in loaded]
    except Mismatch as e:
        got = e
    if got != [canon(n) for n in nodes]:
        raise Violation('%s gives %r, which loads to %r, not %r' % (what, data[:400], got, nodes))


def writer(kind):
    from amazon.ion.writer_binary import binary_writer
    from amazon.ion.writer_text import text_writer
    if kind in ('text', 'pretty'):
        return text_writer(indent=' ') if kind == 'pretty' else text_writer()
    return binary_writer(get_imports(kind)[0])


_EV = {}


def evs(k):
    if k not in _EV:
        _EV[k] = [e for n in SEGS[k] for e in to_events(n)]
    return _EV[k]


def segments(payload, rec):
    kind, seq, ivm = payload
    from amazon.ion.writer import blocking_writer
    i = ion()
    text = kind in ('text', 'pretty')
    fp = BytesIO()
    w = blocking_writer(writer(kind), fp)
    nodes = []
    for k, s in enumerate(seq):
        at = fp.tell()
        if ivm >> k & 1:
            w.send(i.core.ION_VERSION_MARKER_EVENT)
        for e in evs(s):
            w.send(e)
        w.send(i.core.ION_STREAM_END_EVENT)
        nodes += SEGS[s]
        part = fp.getvalue()[at:]
        rec.trans()
        if not text:
            if SEGS[s]:
                want = fresh(kind, s)
                if part != want:
                    raise Violation('%s: segment %d of %r is %r, from a fresh writer %r' % (kind, k, seq, part, want))
            elif part not in (b'', refbin.IVM):
                raise Violation('%s: the empty segment %d of %r is %r' % (kind, k, seq, part))
    compare('%s writer with segments %r' % (kind, seq), fp.getvalue(), nodes, text, ref_catalog([kind] if not text else []))
    rec.trace()
    rec.n_states += 1
    rec.outcome('segments ' + ('text' if text else 'binary'))


_FRESH = {}


def fresh(kind, s):
    if (kind, s) not in _FRESH:
        from amazon.ion.writer import blocking_writer
        fp = BytesIO()
        w = blocking_writer(writer(kind), fp)
        for e in evs(s):
            w.send(e)
        w.send(ion().core.ION_STREAM_END_EVENT)
        _FRESH[kind, s] = fp.getvalue()
    return _FRESH[kind, s]


def dumps(payload, rec):
    text, seq = payload          # seq: (segment, option, as stream)
    i = ion()
    fp = BytesIO()
    nodes = []
    for k, (s, opt, stream) in enumerate(seq):
        objs = [to_py(n) for n in SEGS[s]]
        if text:
            if k:
                fp.write(b'\n' if opt != 'omit' else b' ')
            kw = {'pretty': {'indent': ' '}, 'omit': {'omit_version_marker': True}, 'none': {}}[opt]
        else:
            kw = {'imports': get_imports(opt)[0]} if opt != 'none' else {}
        if stream == 'stream':
            i.dump(objs, fp, binary=not text, sequence_as_stream=True, **kw)
            nodes += SEGS[s]
        elif stream == 'list':
            i.dump(objs, fp, binary=not text, **kw)
            nodes.append(N('list', SEGS[s]))
        else:
            for n, o in zip(SEGS[s], objs):
                if text and n is not SEGS[s][0]:
                    fp.write(b' ')
                i.dump(o, fp, binary=not text, **kw)
                nodes.append(n)
        rec.trans()
    compare('dumping %r' % (seq,), fp.getvalue(), nodes, text, ref_catalog([o for _, o, _ in seq] if not text else []))
    rec.trace()
    rec.n_states += 1
    rec.outcome('dumps')


# -- concatenated documents ------------------------------------------------------------------------------------------

U10 = [N('symbol', ('$', 10)), L(N('int', 1, ('$', 11)))]
DOCS = {
    '0': ['ivm'], '00': ['ivm', 'ivm'], 'v': ['ivm', N('int', 7), N('symbol', ('$', 4))], 'n': ['ivm', 'new'] + U10, 'na': ['ivm', 'new', U10[0], 'app', N('symbol', ('$', 13)), U10[1]], 'i': ['ivm', 'imp'] + U10 + [N('symbol', ('$', 12))],
    'p': ['ivm', 'pad', ST((('$', 13), N('symbol', ('$', 14), ('$', 12))))], 'm': ['ivm', 'miss'] + U10, 'nv': ['ivm', 'new', 'ivm', N('symbol', ('$', 9))], 'h': ['ivm', 'holes'] + U10 + [N('symbol', ('$', 12))], 'ne': ['ivm', 'new', 'empty', N('string', 's')],
    'a': ['ivm', 'app'] + U10, 't': ['ivm', 'new', 'new'], 'bad': ['ivm', U10[0]], 'bad2': ['ivm', 'new', N('symbol', ('$', 12))], 'bare': [N('int', 5)],
}


def concat(payload, rec):
    fmt, names = payload
    i = ion()
    data, m, parts = [], Model(), []
    err = False
    for n in names:
        doc = [render(fmt, ITEMS[x] if isinstance(x, str) else x) for x in DOCS[n]]
        data.append((b'' if fmt == 'b' else '').join(doc))
        mine = Model()
        try:
            for x in DOCS[n]:
                x = ITEMS[x] if isinstance(x, str) else x
                mine.feed(x)
            parts.append(mine.out)
        except RefError:
            parts.append(None)
        try:
            for x in DOCS[n]:
                if not err:
                    m.feed(ITEMS[x] if isinstance(x, str) else x)
        except RefError:
            err = True
    whole = (b'' if fmt == 'b' else '').join(data)
    if 'bare' not in names and not err and m.out != [v for p in parts for v in p]:
        raise AssertionError('the model does not concatenate')
    for src in [whole] if fmt == 'b' else [whole, whole.encode('utf-8')]:
        try:
            got = [canon(from_py(v)) for v in i.loads(src, catalog=D.catalog(CAT), single_value=False)]
        except Mismatch as e:
            raise Violation('%r loads to %s' % (src, e))
        except Exception as e:
            if not err:
                raise Violation('%r (%r concatenated) does not load: %s: %s' % (src, names, type(e).__name__, e))
            got = None
        if (got is None) != err or got is not None and got != [canon(keys(n)) for n in m.out]:
            raise Violation('%r (%r concatenated) loads to %r, not to %r' % (src, names, got, 'an error' if err else m.out))
        rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('error' if err else 'concat')


# -- files -----------------------------------------------------------------------------------------------------------

class Cut(object):
    """A file whose reads stop at the given positions."""

    def __init__(self, data, cuts):
        self.data, self.cuts, self.pos = data, sorted(cuts) + [len(data)], 0

    def read(self, n=-1):
        end = len(self.data)
        for c in self.cuts:
            if c > self.pos:
                end = c
                break
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        d = self.data[self.pos:end]
        self.pos = end
        return d

    def seek(self, pos, whence=0):
        self.pos = pos
        return pos

    def tell(self):
        return self.pos


class CutText(io.TextIOBase):
    def __init__(self, data, cuts):
        self.cut = Cut(data, cuts)

    def read(self, n=-1):
        return self.cut.read(n)

    def seek(self, pos, whence=0):
        return self.cut.seek(pos)


class Raw(io.RawIOBase):
    def __init__(self, data, cuts):
        self.cut = Cut(data, cuts)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self.cut.seek(pos)

    def tell(self):
        return self.cut.pos

    def readinto(self, b):
        d = self.cut.read(len(b))
        b[:len(d)] = d
        return len(d)


CATALOG = {'t1': {1: ['a', 'b']}}


def result(fn):
    try:
        return [canon(from_py(v)) for v in fn()]
    except Mismatch as e:
        raise Violation(str(e))
    except Exception as e:
        return 'error'


def reads(payload, rec):
    doc, full = payload
    i = ion()
    cat = D.catalog(CATALOG)
    inputs = [doc] if isinstance(doc, bytes) else [doc, doc.encode('utf-8')]
    for data in inputs:
        want = result(lambda: i.loads(data, catalog=cat, single_value=False))
        n = len(data)
        pats = list(D.partitions(n)) if n <= full else list(D.cuts1(n)) + list(D.sizes(n, range(1, 10))) + (list(D.cuts2(n)) if full > 10 or n < 14 else [])
        pats.append([])
        text = not isinstance(data, bytes)
        for k, cuts in enumerate(pats):
            f = CutText(data, cuts) if text else Cut(data, cuts)
            got = result(lambda: i.load(f, catalog=cat, single_value=False))
            rec.trans()
            if got != want:
                raise Violation('%r from a file whose reads stop at %r loads to %r, otherwise to %r' % (data, cuts, got, want))
            if not text and k % 4 == 0:
                f = Raw(data, cuts)
                got = result(lambda: i.load(f if k % 8 else io.BufferedReader(f, 3), catalog=cat, single_value=False))
                rec.trans()
                if got != want:
                    raise Violation('%r from a raw file whose reads stop at %r loads to %r, otherwise to %r' % (data, cuts, got, want))
        # The blocking reader with its own buffer size.
        mode = 's' if text else 'b' if data[:4] == refbin.IVM else 't'
        ends = set()
        for size in list(range(1, min(n, 24) + 2)) + [None]:
            ends.add(repr(blocking(mode, data, size, cat)))
            rec.trans()
        if len(ends) != 1:
            raise Violation('%r through the blocking reader with buffer sizes from 1 gives %s' % (data, sorted(ends)))
    rec.trace()
    rec.n_states += 1
    rec.outcome('error' if want == 'error' else 'reads')


def blocking(mode, data, size, cat):
    b = D.B()
    fp = StringIO(data) if mode == 's' else BytesIO(data)
    r = D.make(mode + 'm', cat)
    r = b.blocking(r, fp) if size is None else b.blocking(r, fp, size)
    out = []
    try:
        while True:
            e = r.send(b.NEXT)
            out.append(D.norm(e))
            if e.event_type is b.END or len(out) > 10000:
                return out
    except Exception as e:
        # What was read before the error depends on the amounts.
        return 'error'


BUFFER = 8196      # what load reads at a time


def buffers(payload, rec):
    """Documents that straddle the end of the first and of the second buffer that load uses."""
    doc, k, times = payload
    i = ion()
    cat = D.catalog(CATALOG)
    if isinstance(doc, bytes):
        size = BUFFER * times - k - 4
        pad = refbin.td(0, b'\x00' * (size - 3))
        assert len(pad) == size, (len(pad), size)
        srcs = [(refbin.IVM + pad + doc, refbin.IVM + doc)]
    else:
        size = BUFFER * times - k
        srcs = [(' ' * size + doc, doc), ((' ' * (size - 1)).encode('utf-8') + b'\n' + doc.encode('utf-8'), doc.encode('utf-8')), ('"' + 'z' * (size - 4) + '" ' + doc, '"" ' + doc)]
    for src, short in srcs:
        want = result(lambda: i.loads(short, catalog=cat, single_value=False))
        got = result(lambda: i.loads(src, catalog=cat, single_value=False))
        if want != 'error' and got != 'error' and src[:1] in ('"', b'"'):
            want, got = want[1:], got[1:]
        if got != want:
            raise Violation('%r after %d bytes loads to %r, alone to %r' % (doc, size, got, want))
        rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('buffer')


TEXTS = ['1', '1 ', 'a', "'a'", '"a"', '""', "'''a'''", "'''a''' '''b'''", '[1]', '{a:1}', '(a)', '{{}}', '{{aGk=}}', '{{"a"}}', 'null', 'null.int', 'nan', '+inf', '-1', '1.5', '1d3', '1e3', '0x1F', '0b1', '2000T', '2000-01-01', '2000-01-01T00:00Z',
         'a::1', "a:: 'b'", '//c\n1', '/*c*/1', '1//c', '\u00e9', "'\u00e9'", "'\u20ac'", '"\U0001f600"', '"\\u00e9"', '"\\n"', '"a\\\nb"', '\ufeff1', '$ion_1_0', '$ion_1_0 a', '$10', 'a b', 'a "b" c', '[a,[b]]', '{a:{b:c}}', "{'a':1}", '{"a":1}',
         "{'''a''':1}", '(+ 1)', '(a.b)', "{{'''a'''}}", '', ' ', '\n', '[', '{a:', '"a', "'''a", '{{a', '/*', 'a::', ']', '1a', '"\\q"', '$ion_symbol_table::{symbols:["a"]} $10', '$ion_symbol_table::{imports:[{name:"t1",version:1}]} $11 $10',
         '\r\n1\r\n2', '"\r\n"', '1 /', 'true false', "''", "a::b::c", 'null.struct', "'''\u20ac\\\n'''", '{{"\\xff"}}', '1_000', '2000-01-01T00:00:00.000-01:00', 'x' * 30, '"' + 'y' * 30 + '"', '\u00e9'.join(['"'] * 2), 'é::1', "'a'::b", 'nul', 'null.x']
BINS = [b'', b'\x0f', b'\x11', b'\x21\x01', b'\x71\x04', b'\x83abc', b'\xb2\x21\x01', b'\xd2\x84\x11', b'\xe4\x81\x84\x21\x01', b'\x48\x3f\xf8\0\0\0\0\0\0', b'\x52\xc1\x05', b'\x63\xc0\x0f\xd0', b'\xa2hi', b'\x02ab\x11', b'\x21\x01\xe0\x01\x00\xea\x21\x02', b'\x8e\x8fabcdefghijklmno',
        b'\xe7\x81\x83\xd4\x87\xb2\x81a\x71\x0a', b'\xf0', b'\x82a', b'\xb3\x21', b'\xe0\x01\x01\xea', b'\x71\x0a', b'\xee\x8d\x81\x83\xda\x86\xb8\xd7\x84\x82t1\x85\x21\x01\x71\x0b', b'\xee\x8d\x81\x83\xda\x86\xb8\xd7\x84\x82t1\x85\x21\x01\x71\x0b\x71\x0a\x20', b'\x20\x11\x0f\xc0\xb0']


def g_reads():
    for t in TEXTS:
        yield t
    for t in TEXTS[:58]:
        yield 'a ' + t + ' b'
        yield '[' + t + ']'
    for b in BINS:
        yield refbin.IVM + b
    for n in range(4):
        yield refbin.IVM[:n]
        yield refbin.IVM[:n] + b'1'
    for b in BINS:
        for c in BINS[:12]:
            yield refbin.IVM + b + c


# -- single values ---------------------------------------------------------------------------------------------------

SINGLE = {
    'ivm': ('IVM', 0), 'new': ('item', 0), 'app': ('item', 0), 'empty': ('item', 0), 'pad': ('pad', 0),
    'int': (N('int', 1), 1), 'null': (N('null'), 1), 'list': (L(), 1), 'nls': (N('list'), 1), 'sym': (N('symbol', ('$', 4)), 1), 'aivm': (N('symbol', '$ion_1_0', 'name'), 1), 'nest': (L(N('symbol', '$ion_1_0')), 1), 'two': (L(N('int', 1), N('int', 2)), 1),
}
SYSTEM = ('ivm', 'new', 'app', 'empty', 'pad')


def single(payload, rec):
    fmt, names = payload
    i = ion()
    parts, values = [], []
    for k, n in enumerate(names):
        x, count = SINGLE[n]
        if n == 'pad':
            parts.append((b'\x00', b'\x02zz', b'\x0e\x8e' + b'\x00' * 14)[k % 3] if fmt == 'b' else (' /* 1 */ ', '// 2\n', '\n\t')[k % 3])
        else:
            parts.append(render(fmt, ITEMS[n] if n in ('new', 'app', 'empty') else x))
        if count:
            values.append(x)
    data = (refbin.IVM if fmt == 'b' else '') + (b'' if fmt == 'b' else '').join(parts)
    m = Model()
    for x in values:
        m.feed(x)
    want = [canon(keys(x)) for x in m.out]
    if len(want) != len(values):
        raise AssertionError(names)
    for src in [data] if fmt == 'b' else [data, data.encode('utf-8')]:
        got = [canon(from_py(v)) for v in i.loads(src, single_value=False)]
        if got != want:
            raise Violation('%r loads to %r, not %r' % (src, got, want))
        for how, fn in (('loads', lambda: i.loads(src)), ('loads single_value=True', lambda: i.loads(src, single_value=True)), ('load', lambda: i.load(BytesIO(src) if isinstance(src, bytes) else StringIO(src)))):
            try:
                v = fn()
            except i.IonException:
                if len(want) == 1:
                    raise Violation('%s of %r, which holds one value, raises IonException' % (how, src))
                rec.trans()
                continue
            except Exception as e:
                raise Violation('%s of %r raises %s: %s' % (how, src, type(e).__name__, e))
            if len(want) != 1:
                raise Violation('%s of %r, which holds %d values, gives %r' % (how, src, len(want), v))
            if canon(from_py(v)) != want[0]:
                raise Violation('%s of %r gives %r' % (how, src, from_py(v)))
            rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('%d values' % len(want))


def bigfile(payload, rec):
    """A long document from files that return less than asked for."""
    data, = payload
    i = ion()
    cat = D.catalog(CATALOG)
    want = result(lambda: i.loads(data, catalog=cat, single_value=False))
    n = len(data)
    text = not isinstance(data, bytes)
    for k, cuts in enumerate([[]] + [[m] for m in MARKS if m < n] + [[n - 1]] + list(D.sizes(n, [m for m in MARKS if m < n < 100 * m][::2]))):
        f = CutText(data, cuts) if text else Cut(data, cuts) if k % 2 else Raw(data, cuts)
        got = result(lambda: i.load(f, catalog=cat, single_value=False))
        rec.trans()
        if got != want:
            raise Violation('%r (%d units) from a file whose reads stop at %r... loads to %s, otherwise to %s' % (data[:200], n, cuts[:6], str(got)[:500], str(want)[:500]))
    mode = 's' if text else 'b' if data[:4] == refbin.IVM else 't'
    ends = set()
    for size in [m for m in MARKS if n < 200 * m] + [None]:
        ends.add(repr(blocking(mode, data, size, cat)))
        rec.trans()
    if len(ends) != 1:
        raise Violation('%r (%d units) through the blocking reader gives, by buffer size, %s' % (data[:200], n, [e[:500] for e in sorted(ends)]))
    rec.trace()
    rec.n_states += 1
    rec.outcome('error' if want == 'error' else 'bigfile')


MARKS = (1, 7, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 8195, 8196, 8197, 16392)


def g_files(sizes):
    from . import c05, c04
    for n in sizes:
        for j, d in enumerate(c05.long_tokens(n)):
            d = ('%s', '[%s]', '%s z')[(j + n) % 3].replace('%s', d)
            yield (d,) if j % 2 else (d.encode('utf-8'),)
        for d in c04.large(n):
            if len(d) < 40000:
                yield (refbin.IVM + d + b'\x11',)
    from .. import values
    for k, v in enumerate(values.g_dense()):
        yield (reftext.render(v, k % 3),) if k % 2 else (refbin.encode_stream([v]),)


def g_histories():
    """Long histories: every constant, alternating and rotating order of the segments."""
    n = NSEG
    for length, starts in ((130, 5), (300, 7), (1100, 11), (4100, 12)):
        for start in range(0, n, starts):
            yield tuple((start + k * (3 if start else 7)) % n for k in range(length))
    m = len(SEGS)
    for a, b in product(range(n, m), range(m)):
        yield a, b, a
        yield b, a, 1, b
    yield tuple(range(m)) * 3
    for length in (8, 17, 40):
        for step in range(n):
            for start in range(0, n, 1 if length < 40 else 3):
                yield tuple((start + k * step) % n for k in range(length))
                yield tuple((start, (start + step) % n)[k % 3 == 1] for k in range(length))


def g_longhist(a):
    for k, seq in enumerate(g_histories()):
        for j, kind in enumerate(WRITERS):
            if a > 1 or (k + j) % 3 == 0:
                yield kind, seq, (0, 0x5555555555, (1 << 5000) - 1, 0x10)[(k + j) % 4]


def g_longdumps(a):
    for k, seq in enumerate(g_histories()):
        if len(seq) not in (40, 1100, 4100) and (a > 1 or k % 5 == 0):
            b = [x for x in DUMPS_B]
            t = [x for x in DUMPS_T]
            yield False, tuple(b[(s * 7 + j * (k % 5)) % len(b)] for j, s in enumerate(seq))
            yield True, tuple(t[(s * 5 + j * (k % 7)) % len(t)] for j, s in enumerate(seq))


def g_longconcat(a):
    names = [x for x in sorted(DOCS) if x not in ('bad', 'bad2')]
    n = len(names)
    for length in (5, 9, 20, 150, 1100):
        for step in range(n) if length < 100 else (1, n // 2):
            for start in range(0, n, 1 if length < 100 else n // 2):
                for fmt in 'bt':
                    seq = tuple(names[(start + k * step) % n] for k in range(length))
                    if not (fmt == 'b' and seq[0] == 'bare'):
                        yield fmt, seq
                    seq = tuple(names[start] if k % 3 != 1 else names[step] for k in range(length))
                    if not (fmt == 'b' and seq[0] == 'bare'):
                        yield fmt, seq


KINDS = {'bigfile': bigfile, 'longhist': segments, 'longdumps': dumps, 'longconcat': concat, 'segments': segments, 'dumps': dumps, 'concat': concat, 'reads': reads, 'buffers': buffers, 'single': single}


def g_segments(depth):
    n = NSEG
    for d in range(1, depth + 1):
        for kind in WRITERS:
            if kind in ('t1', 'big') and d > 2:
                continue
            for seq in product(range(n), repeat=d):
                yield kind, seq, 0
                if d == 2:
                    for ivm in (1, 2, 3):
                        yield kind, seq, ivm


DUMPS_B = [(s, o, how) for s in (0, 1, 3, 5, 7, 10) for o, how in (('none', 'stream'), ('t1', 'stream'), ('t2', 'stream'), ('none', 'list'), ('t2', 'each'), ('big', 'each'))]
DUMPS_T = [(s, o, how) for s in (0, 1, 3, 5, 7, 8, 10) for o, how in (('none', 'stream'), ('pretty', 'stream'), ('omit', 'each'), ('none', 'list'), ('pretty', 'each'))]


def g_dumps(depth):
    for d in range(1, depth + 1):
        for text, c in ((False, DUMPS_B), (True, DUMPS_T)):
            for seq in product(c if d < 3 else c[::3], repeat=d):
                yield text, seq


def g_concat(depth):
    for fmt in ('b', 't'):
        names = sorted(DOCS)
        for d in range(1, depth + 1):
            for seq in product(names, repeat=d):
                # A document without version marker cannot come first in binary.
                if fmt == 'b' and seq[0] == 'bare':
                    continue
                yield fmt, seq


def g_single(depth):
    for fmt in ('b', 't'):
        for d in range(0, depth + 1):
            for seq in product(sorted(SINGLE), repeat=d):
                if sum(1 for n in seq if n not in SYSTEM) <= 3:
                    yield fmt, seq


def jobs(tier):
    q = tier == 'quick'
    n = 16 if q else 64
    out = []
    out += [('buffers', (1 if q else 3, i, n)) for i in range(n)]
    for kind, a in (('segments', 3 if q else 4), ('dumps', 2 if q else 3), ('concat', 3 if q else 4), ('reads', 10 if q else 14), ('single', 3 if q else 4)):
        out += [(kind, (a, i, n)) for i in range(n)]
    for kind in ('bigfile', 'longhist', 'longdumps', 'longconcat'):
        out += [(kind, (1 if q else 2, i, n)) for i in range(n)]
    return out


def cases(kind, args):
    a, i, n = args
    if kind == 'buffers':
        gen = ((d, k, t) for d in TEXTS + BINS for t in range(1, a + 1) for k in range(0, (len(d) if isinstance(d, bytes) else len(d.encode('utf-8'))) + 2) if d and k < 40)
    elif kind == 'reads':
        gen = ((d, a) for d in g_reads())
    elif kind == 'bigfile':
        gen = g_files((0, 14, 65, 129, 257, 1024, 4096, 8192, 8193, 20000))
        gen = gen if a > 1 else (x for k, x in enumerate(gen) if k % 7 == 3)
    else:
        gen = {'longhist': g_longhist, 'longdumps': g_longdumps, 'longconcat': g_longconcat, 'segments': g_segments, 'dumps': g_dumps, 'concat': g_concat, 'single': g_single}[kind](a)
    for k, x in enumerate(gen):
        if k % n == i:
            yield x
