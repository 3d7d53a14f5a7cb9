# -*- coding: utf-8 -*-
"""Drives the non-blocking readers of amazon.ion under a given schedule of chunks, and normalises what they report."""
from .model import ion, fbits, ts_from_py

_B = None


class _Bind(object):
    def __init__(self):
        i = ion()
        from amazon.ion import reader, reader_text, reader_binary, reader_managed, util
        from amazon.ion.symbols import SymbolToken, SymbolTableCatalog, shared_symbol_table
        self.NEXT, self.SKIP, self.data = reader.NEXT_EVENT, reader.SKIP_EVENT, reader.read_data_event
        self.blocking = reader.blocking_reader
        self.text, self.binary, self.managed = reader_text.reader, reader_binary.raw_reader, reader_managed.managed_reader
        E = i.core.IonEventType
        self.INC, self.END, self.IVM = E.INCOMPLETE, E.STREAM_END, E.VERSION_MARKER
        self.SCALAR, self.CSTART, self.CEND = E.SCALAR, E.CONTAINER_START, E.CONTAINER_END
        self.Token, self.Catalog, self.shared = SymbolToken, SymbolTableCatalog, shared_symbol_table
        self.name_of = i.name_of


def B():
    global _B
    if _B is None:
        _B = _Bind()
    return _B


def catalog(tables):
    """tables: {name: {version: [text, ...]}}."""
    b = B()
    c = b.Catalog()
    for name in sorted(tables):
        for v in sorted(tables[name]):
            c.register(b.shared(name, v, tables[name][v]))
    return c


def make(mode, cat=None):
    """mode: 's' text from str, 't' text from UTF-8 bytes, 'b' binary; followed by 'm' for a managed reader."""
    b = B()
    r = b.text(is_unicode=True) if mode[0] == 's' else b.text() if mode[0] == 't' else b.binary()
    if mode[1:2] == 'm':
        r = b.managed(r, cat)
    return r


def encode(mode, doc):
    """The input of a text document for the mode (binary documents are bytes already)."""
    return doc.encode('utf-8') if mode[0] == 't' and isinstance(doc, str) else doc


def norm_sym(s):
    if s is None:
        return None
    if isinstance(s, str):
        return ('str', str(s))
    loc = s.location
    return (None if s.text is None else str(s.text), s.sid, None if loc is None else (str(loc.name), loc.position))


def norm_value(t, v):
    if v is None:
        return None
    if t == 'float':
        return fbits(v)
    if t == 'decimal':
        sg, digs, exp = v.as_tuple()
        return (sg, int(''.join(map(str, digs)) or '0'), exp)
    if t == 'bool':
        return bool(v) if v in (0, 1) else v
    if t == 'timestamp':
        return ts_from_py(v)
    if t == 'symbol':
        return norm_sym(v)
    if t in ('clob', 'blob'):
        return bytes(v)
    return v


def norm(e):
    """A comparable form of an event; evaluates the value."""
    b = B()
    et = e.event_type
    if et is b.IVM:
        return ('IVM', e.value)
    T = e.ion_type
    t = None if T is None else b.name_of[T]
    return (et.name, t, norm_value(t, e.value), norm_sym(e.field_name), tuple([norm_sym(a) for a in e.annotations]), e.depth)


def ref_sym(s):
    if isinstance(s, str):
        return (s, None, None)
    if s == 0:
        return (None, 0, None)
    return (None, s[1], None)


def ref_events(nodes):
    """What a raw reader reports for raw nodes (as reftext.parse_raw and refbin.decode_raw give them), in normal form."""
    out = []
    for n in nodes:
        if n == 'IVM':
            out.append(('IVM', (1, 0)))
        else:
            _ref_node(n, None, 0, out)
    return out


def _ref_node(node, field, depth, out):
    a, t, p = node
    f = None if field is None else ref_sym(field)
    a = tuple([ref_sym(s) for s in a])
    if p is not None and t in ('list', 'sexp', 'struct'):
        out.append(('CONTAINER_START', t, None, f, a, depth))
        for c in p:
            if t == 'struct':
                _ref_node(c[1], c[0], depth + 1, out)
            else:
                _ref_node(c, None, depth + 1, out)
        out.append(('CONTAINER_END', t, None, None, (), depth))
        return
    if t == 'symbol' and p is not None:
        p = ref_sym(p)
    out.append(('SCALAR', t, p, f, a, depth))


class Err(Exception):
    pass


def drive(mode, chunks, cat=None, flush=True, late=False):
    """-> (events, end): events the reader reports when given the chunks one after the other, end is
    'error', or the last signals: ('STREAM_END',) / ('INCOMPLETE',) / ('INCOMPLETE', 'STREAM_END') (after a flush)...
    With late=True no event is looked into before the end."""
    b = B()
    r = make(mode, cat)
    NEXT, SKIP, INC, END = b.NEXT, b.SKIP, b.INC, b.END
    events = []
    keep = []
    k, n = 0, len(chunks)
    send = NEXT
    end = []
    flushed = 0
    try:
        while True:
            e = r.send(send)
            send = NEXT
            et = e.event_type
            if et is INC or et is END:
                if k < n:
                    send = b.data(chunks[k])
                    k += 1
                    continue
                end.append('INCOMPLETE' if et is INC else 'STREAM_END')
                if et is INC and flush and mode[0] != 'b' and flushed < 3:
                    flushed += 1
                    continue
                break
            if late:
                keep.append(e)
            else:
                events.append(norm(e))
            if len(events) > 100000:
                raise Err('endless')
        if late:
            for e in keep:
                events.append(norm(e))
    except Err:
        raise
    except Exception as e:
        end.append('error')
    return events, tuple(end)


def signals(mode, chunks, cat=None):
    """-> (events, [(number of events so far, signal)] before each chunk and at the end, error or None)."""
    b = B()
    r = make(mode, cat)
    events, sig = [], []
    k, n = 0, len(chunks)
    send = b.NEXT
    try:
        while True:
            e = r.send(send)
            send = b.NEXT
            et = e.event_type
            if et is b.INC or et is b.END:
                sig.append((len(events), 'INCOMPLETE' if et is b.INC else 'STREAM_END'))
                if k == n:
                    return events, sig, None
                send = b.data(chunks[k])
                k += 1
                continue
            events.append(norm(e))
            if len(events) > 100000:
                raise Err('endless')
    except Err:
        raise
    except Exception as e:
        return events, sig, '%s: %s' % (type(e).__name__, e)


def cut(doc, cuts):
    """The chunks of a document cut at the given positions."""
    out = []
    p = 0
    for c in cuts:
        out.append(doc[p:c])
        p = c
    out.append(doc[p:])
    return out


def partitions(n):
    """Every set of cut positions strictly inside 0..n, but the empty one."""
    for mask in range(1, 1 << max(0, n - 1)):
        yield [i + 1 for i in range(n - 1) if mask >> i & 1]


def cuts1(n):
    for i in range(1, n):
        yield [i]


def cuts2(n):
    for i in range(1, n):
        for j in range(i + 1, n):
            yield [i, j]


def sizes(n, ks):
    for k in ks:
        if k < n:
            yield list(range(k, n, k))
