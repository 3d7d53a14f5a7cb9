# -*- coding: utf-8 -*-
"""Reference data model, independent of amazon.ion.

A node is (annotations, type, payload):

  annotations   tuple of syms
  type          'null','bool','int','float','decimal','timestamp','symbol','string','clob','blob','list','sexp','struct'
  payload       None for a (typed) null, else
     bool       True/False                 int      int
     float      '%016x' of the binary64 bits, or 'nan'
     decimal    (sign, coefficient, exponent)
     timestamp  (precision, Y, M, D, h, m, s, frac, offset): precision in 'YMDms'; fields beyond it None;
                frac None or (coefficient, digits > 0); offset minutes or None
     symbol     sym                        string   str
     clob,blob  bytes
     list,sexp  tuple of nodes             struct   tuple of (sym, node)

A sym is a str (known text), 0 (symbol zero) or ('@', name, position) (unknown text, imported from a shared table) or
('?', sid) (unknown text with local ID only).

All payloads are Python literals, so nodes can be written to and read from replay files.
"""
import struct

TYPES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
         'struct')
CONTAINERS = ('list', 'sexp', 'struct')


def fbits(x):
    if x != x:
        return 'nan'
    return struct.pack('>d', x).hex()


def bits_float(b):
    if b == 'nan':
        return float('nan')
    return struct.unpack('>d', bytes.fromhex(b))[0]


def N(typ, payload=None, *annots):
    return (tuple(annots), typ, payload)


def F(x, *annots):
    return N('float', fbits(x), *annots)


def L(*items):
    return N('list', tuple(items))


def SX(*items):
    return N('sexp', tuple(items))


def ST(*fields):
    return N('struct', tuple(fields))


def ann(node, *annots):
    return (tuple(annots), node[1], node[2])


def canon(node):
    """Order-insensitive in struct field names, order-preserving among fields of one name."""
    a, t, p = node
    if p is not None:
        if t == 'struct':
            p = tuple(sorted(((s, canon(v)) for s, v in p), key=lambda f: repr(f[0])))
        elif t in ('list', 'sexp'):
            p = tuple(canon(v) for v in p)
    return (a, t, p)


def bag(node):
    """Canonical form under Ion equality: struct fields are an unordered bag."""
    a, t, p = node
    if p is not None:
        if t == 'struct':
            p = tuple(sorted(((s, bag(v)) for s, v in p), key=repr))
        elif t in ('list', 'sexp'):
            p = tuple(bag(v) for v in p)
    return (a, t, p)


def size(node):
    p = node[2]
    if p is None or node[1] not in CONTAINERS:
        return 1
    return 1 + sum(size(f[1] if node[1] == 'struct' else f) for f in p)


# ---------------------------------------------------------------------------------------------------------------
# Binding to amazon.ion objects (imported lazily so that the model itself does not depend on the code under test).

_ION = None


class _Ion(object):
    def __init__(self):
        from decimal import Decimal
        import datetime
        from amazon.ion import simpleion, core, simple_types, symbols, equivalence, exceptions
        self.Decimal, self.datetime = Decimal, datetime
        self.dumps, self.loads, self.dump, self.load = simpleion.dumps, simpleion.loads, simpleion.dump, simpleion.load
        self.core, self.st, self.sym = core, simple_types, symbols
        self.ion_equals = equivalence.ion_equals
        self.IonException = exceptions.IonException
        T = core.IonType
        self.by_name = {n: getattr(T, n.upper()) for n in TYPES}
        self.name_of = {v: k for k, v in self.by_name.items()}
        P = core.TimestampPrecision
        self.prec = {'Y': P.YEAR, 'M': P.MONTH, 'D': P.DAY, 'm': P.MINUTE, 's': P.SECOND}
        self.prec_of = {v: k for k, v in self.prec.items()}
        s = simple_types
        self.cls = {'null': s.IonPyNull, 'bool': s.IonPyBool, 'int': s.IonPyInt, 'float': s.IonPyFloat,
                    'decimal': s.IonPyDecimal, 'timestamp': s.IonPyTimestamp, 'symbol': s.IonPySymbol,
                    'string': s.IonPyText, 'clob': s.IonPyBytes, 'blob': s.IonPyBytes, 'list': s.IonPyList,
                    'sexp': s.IonPyList, 'struct': s.IonPyDict}


def ion():
    global _ION
    if _ION is None:
        _ION = _Ion()
    return _ION


def sym_to_py(s, location=True):
    i = ion()
    if isinstance(s, str):
        return s
    if s == 0:
        return i.sym.SymbolToken(None, 0)
    if s[0] == '@':
        return i.sym.SymbolToken(None, None if False else s[2], i.sym.ImportLocation(s[1], s[2]))
    return i.sym.SymbolToken(None, s[1])


def sym_from_py(tok):
    """A text or SymbolToken as reported by a managed reader."""
    if isinstance(tok, str):
        return str(tok)
    text = tok.text
    if text is not None:
        return str(text)
    if tok.sid == 0:
        return 0
    loc = tok.location
    if loc is not None:
        return ('@', str(loc.name), loc.position)
    return ('?', tok.sid)


def ts_to_py(p, cls=None):
    i = ion()
    prec, y, mo, d, h, mi, s, frac, off = p
    tz = None if off is None else i.core.OffsetTZInfo(i.datetime.timedelta(minutes=off))
    fs = None
    if frac is not None:
        fs = i.Decimal((0, tuple(int(c) for c in str(frac[0])), -frac[1]))
    return (cls or i.core.Timestamp)(y, mo or 1, d or 1, h or 0, mi or 0, s or 0, None, tz,
                                     precision=i.prec[prec], fractional_seconds=fs)


def ts_from_py(ts):
    i = ion()
    prec = i.prec_of[ts.precision]
    k = 'YMDms'.index(prec)
    off = ts.utcoffset()
    if off is not None:
        off = (off.days * 86400 + off.seconds) // 60
    frac = None
    fs = ts.fractional_seconds
    if fs is not None:
        sg, digs, exp = fs.as_tuple()
        coef = int(''.join(map(str, digs)) or '0')
        if exp < 0:
            frac = (coef, -exp)
        elif coef or sg:
            frac = ('bad', str(fs))
        want_us = (coef * 10 ** 6 // 10 ** -exp) if exp <= 0 else coef * 10 ** (6 + exp)
        if ts.microsecond != want_us:
            frac = ('microsecond %d for' % ts.microsecond, str(fs))
        if ts.fractional_precision != min(6, max(0, -exp)):
            frac = ('fractional_precision %r for' % ts.fractional_precision, str(fs))
    elif ts.microsecond:
        frac = ('microsecond only', ts.microsecond)
    return (prec, ts.year, ts.month if k >= 1 else None, ts.day if k >= 2 else None, ts.hour if k >= 3 else None,
            ts.minute if k >= 3 else None, ts.second if k >= 4 else None, frac if k >= 4 else None,
            off if k >= 3 else None)


def scalar_to_py(t, p):
    """The plain Python value of a scalar, as carried by events."""
    i = ion()
    if t == 'float':
        return bits_float(p)
    if t == 'decimal':
        return i.Decimal((p[0], tuple(int(c) for c in str(p[1])), p[2]))
    if t == 'timestamp':
        return ts_to_py(p)
    if t == 'symbol':
        return sym_to_py(p) if not isinstance(p, str) else i.sym.SymbolToken(p, None)
    return p


def to_py(node):
    """The Ion-natured Python object of a node."""
    i = ion()
    a, t, p = node
    annots = tuple(sym_to_py(s) for s in a)
    T = i.by_name[t]
    if p is None:
        v = i.st.IonPyNull()
        v.ion_type = T
        v.ion_annotations = annots
        return v
    cls = i.cls[t]
    if t == 'struct':
        v = cls()
        v.ion_type, v.ion_annotations = T, annots
        for s, c in p:
            v.add_item(None if s == 0 else s, to_py(c))
        return v
    if t in ('list', 'sexp'):
        return cls.from_value(T, [to_py(c) for c in p], annots)
    if t == 'decimal':
        v = cls((p[0], tuple(int(c) for c in str(p[1])), p[2]))
        v.ion_type, v.ion_annotations = T, annots
        return v
    if t == 'timestamp':
        v = ts_to_py(p, cls)
        v.ion_type, v.ion_annotations = T, annots
        return v
    return cls.from_value(T, scalar_to_py(t, p), annots)


class Mismatch(Exception):
    pass


def from_py(v):
    """The node of a loaded Python object; raises Mismatch when it breaks the documented mapping."""
    i = ion()
    T = v.ion_type
    t = i.name_of[T]
    a = tuple(sym_from_py(s) for s in v.ion_annotations)
    if isinstance(v, i.st.IonPyNull):
        return (a, t, None)
    if type(v) is not i.cls[t]:
        raise Mismatch('%s loaded as %s' % (t, type(v).__name__))
    return (a, t, _payload(t, v))


def _payload(t, v):
    i = ion()
    if t == 'bool':
        if v not in (0, 1):
            raise Mismatch('bool loaded as %d' % v)
        return bool(v)
    if t == 'int':
        return int(v)
    if t == 'float':
        return fbits(float(v))
    if t == 'decimal':
        sg, digs, exp = v.as_tuple()
        if not isinstance(exp, int):
            raise Mismatch('non-finite decimal %s' % v)
        return (sg, int(''.join(map(str, digs)) or '0'), exp)
    if t == 'timestamp':
        return ts_from_py(v)
    if t == 'symbol':
        return sym_from_py(v)
    if t == 'string':
        return str(v)
    if t in ('clob', 'blob'):
        return bytes(v)
    if t in ('list', 'sexp'):
        return tuple(from_py(c) for c in v)
    out = []
    for k, c in v.items():
        out.append((0 if k is None else str(k), from_py(c)))
    if len(out) != len(v):
        raise Mismatch('struct of length %d iterates %d items' % (len(v), len(out)))
    return tuple(out)


def event_scalar(ion_type, value):
    """Payload of a SCALAR event of a managed reader (or of a raw reader whose symbols are tokens)."""
    i = ion()
    t = i.name_of[ion_type]
    if value is None or t == 'null':
        return None
    if t in CONTAINERS:
        raise Mismatch('scalar event of %s with value %r' % (t, value))
    return _payload(t, value)


class EventTree(object):
    """Builds nodes from a reader's event sequence, checking depth and nesting on the way."""

    def __init__(self, managed=True):
        self.top = []
        self.stack = []
        self.E = ion().core.IonEventType

    def feed(self, e):
        i = ion()
        E = self.E
        et = e.event_type
        if et is E.CONTAINER_END:
            if not self.stack:
                raise Mismatch('container end at top level')
            t, a, f, items = self.stack.pop()
            if e.depth is not None and e.depth != len(self.stack):
                raise Mismatch('container end depth %r at nesting %d' % (e.depth, len(self.stack)))
            if e.ion_type is not None and i.name_of[e.ion_type] != t:
                raise Mismatch('end of %s reported as %s' % (t, e.ion_type))
            self._add(f, (a, t, tuple(items)))
            return
        if et not in (E.SCALAR, E.CONTAINER_START):
            raise Mismatch('unexpected event %r' % (e,))
        if e.depth != len(self.stack):
            raise Mismatch('event depth %r at nesting %d' % (e.depth, len(self.stack)))
        a = tuple(sym_from_py(s) for s in e.annotations)
        fn = e.field_name
        in_struct = bool(self.stack) and self.stack[-1][0] == 'struct'
        if (fn is not None) != in_struct:
            raise Mismatch('field name %r %s a struct' % (fn, 'in' if in_struct else 'outside'))
        f = sym_from_py(fn) if fn is not None else None
        t = i.name_of[e.ion_type]
        if et is E.CONTAINER_START:
            if t not in CONTAINERS:
                raise Mismatch('container start of %s' % t)
            self.stack.append((t, a, f, []))
        else:
            self._add(f, (a, t, event_scalar(e.ion_type, e.value)))

    def _add(self, f, node):
        if self.stack:
            top = self.stack[-1]
            top[3].append((f, node) if top[0] == 'struct' else node)
        else:
            self.top.append(node)


def to_events(node, field=None, depth=0):
    """Writer events of a node."""
    i = ion()
    E, IonEvent = i.core.IonEventType, i.core.IonEvent
    a, t, p = node
    annots = tuple(sym_to_py(s) for s in a)
    fn = None if field is None else sym_to_py(field)
    T = i.by_name[t]
    if p is not None and t in CONTAINERS:
        out = [IonEvent(E.CONTAINER_START, T, None, fn, annots, depth)]
        for c in p:
            if t == 'struct':
                out.extend(to_events(c[1], c[0], depth + 1))
            else:
                out.extend(to_events(c, None, depth + 1))
        out.append(IonEvent(E.CONTAINER_END, T, None, None, (), depth))
        return out
    return [IonEvent(E.SCALAR, T, None if p is None else scalar_to_py(t, p), fn, annots, depth)]


def show(node):
    return repr(node)
