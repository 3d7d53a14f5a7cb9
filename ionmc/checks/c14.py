# -*- coding: utf-8 -*-
"""C14: ion_equals against the model's equality on every pair of enumerated values."""
from fractions import Fraction
from itertools import product, permutations
import datetime

from .. import alpha, values as V
from ..harness import Violation
from ..model import ion, N, F, L, SX, ST, ann, to_py, scalar_to_py, sym_to_py, ts_to_py

PID = 'C14'
RULE = ('Every ordered pair over the alphabets: scalars and annotated values of every type, symbols under other IDs and import positions, all small trees, all structs of up to three '
        'fields, plain Python values and mixed trees of plain and Ion-natured values; structs of four fields with all their permutations; every large value against itself rebuilt and against each '
        'single change of a leaf, type, annotation, order or field; every history of two (three) changes in place to two equal containers of sizes around powers of two, alone and inside others, compared after each; numbers compared under decimal contexts the caller set. Judged by equality of reference nodes, in both operand orders, with and without '
        'timestamps_instants_only. State = distinct ordered pair, transition = one comparison.')
ASSUMPTIONS = ['a plain str against a symbol, and a plain symbol token against a string, of the same text are not judged', 'values carry an Ion type or are plain; malformed symbols (neither text nor ID) are out of scope',
               'timestamps whose UTC fields leave the years 1-9999 are out of scope']

# Mixed nodes: as in the model; plain values are ('P', kind, payload) with kind null bool int float decimal str token bytes
# bytearray? list tuple dict multimap datetime timestamp. Symbols may be ('#', text, sid): known text with a local ID, or
# ('@', name, position, sid).


class NoOffset(datetime.tzinfo):
    """A time zone that does not give an offset."""
    def utcoffset(self, d):
        return None

    dst = utcoffset

    def tzname(self, d):
        return 'none'


def P(kind, payload=None):
    return ('P', kind, payload)


def symbol_key(s):
    if isinstance(s, tuple):
        if s[0] == '#':
            return s[1]
        if s[0] == '@':
            return s[:3]
    return s


def sym_obj(s):
    i = ion()
    if isinstance(s, tuple):
        if s[0] == '#':
            return i.sym.SymbolToken(s[1], s[2])
        if len(s) == 4:
            return i.sym.SymbolToken(None, s[3], i.sym.ImportLocation(s[1], s[2]))
    return sym_to_py(s)


def build(n):
    i = ion()
    a, t, p = n
    if a != 'P':
        if t == 'symbol' and p is not None:
            x = sym_obj(p)
            return i.st.IonPySymbol.from_value(i.by_name[t], x, tuple(sym_obj(s) for s in a))
        if t in ('list', 'sexp') and p is not None:
            return i.st.IonPyList.from_value(i.by_name[t], [build(c) for c in p], tuple(sym_obj(s) for s in a))
        if t == 'struct' and p is not None:
            v = i.st.IonPyDict()
            v.ion_type, v.ion_annotations = i.by_name[t], tuple(sym_obj(s) for s in a)
            for f, c in p:
                v.add_item(None if f == 0 else f, build(c))
            return v
        v = to_py(((), t, p))
        v.ion_annotations = tuple(sym_obj(s) for s in a)
        return v
    if t == 'null':
        return None
    if t in ('bool', 'int', 'str', 'bytes'):
        return p
    if t in ('float', 'decimal', 'timestamp'):
        return scalar_to_py(t, p)
    if t == 'datetime':
        y, mo, d, h, mi, s, us, off = p
        if off == 'none':
            return datetime.datetime(y, mo, d, h, mi, s, us, NoOffset())
        return datetime.datetime(y, mo, d, h, mi, s, us, None if off is None else i.core.OffsetTZInfo(datetime.timedelta(minutes=off)))
    if t == 'token':
        x = sym_obj(p)
        return x if not isinstance(x, str) else i.sym.SymbolToken(x, None)
    if t == 'list':
        return [build(c) for c in p]
    if t == 'tuple':
        return tuple(build(c) for c in p)
    if t == 'dict':
        return dict((None if k == 0 else k, build(c)) for k, c in p)
    if t == 'multimap':
        m = i.core.Multimap()
        for k, c in p:
            m.add_item(None if k == 0 else k, build(c))
        return m
    raise ValueError(n)


CLASS = {'sexp': 'seq', 'list': 'seq', 'tuple': 'seq', 'clob': 'lob', 'blob': 'lob', 'bytes': 'lob', 'struct': 'struct', 'dict': 'struct', 'multimap': 'struct',
         'datetime': 'timestamp', 'str': 'string', 'token': 'symbol'}


def instant(p):
    _, y, mo, d, h, mi, s, frac, off = p
    days = datetime.date(y, mo or 1, d or 1).toordinal()
    t = Fraction(days * 86400 + (h or 0) * 3600 + (mi or 0) * 60 + (s or 0) - (off or 0) * 60)
    return t + (Fraction(frac[0], 10 ** frac[1]) if frac else 0)


def tskey(t, p, instants):
    if t == 'datetime':
        y, mo, d, h, mi, s, us, off = p
        p = ('s', y, mo, d, h, mi, s, (us, 6), None if off == 'none' else off)
    return instant(p) if instants else p


def both(results):
    r = True
    for x in results:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def eq(x, y, instants=False):
    """True, False or None (not judged)."""
    (a, t, p), (b, u, q) = x, y
    plain = a == 'P' or b == 'P'
    if not plain:
        if t != u or tuple(map(symbol_key, a)) != tuple(map(symbol_key, b)):
            return False
    elif a != 'P' and a or b != 'P' and b:
        return False
    ct, cu = CLASS.get(t, t), CLASS.get(u, u)
    if p is None or q is None:
        return p is None and q is None and t == u
    if ct != cu:
        if plain and set((ct, cu)) == {'string', 'symbol'} and symbol_key(p) == symbol_key(q):
            return None
        return False
    if ct == 'seq':
        return len(p) == len(q) and both(eq(c, d, instants) for c, d in zip(p, q))
    if ct == 'struct':
        return bags(p, q, instants)
    if ct == 'timestamp':
        return tskey(t, p, instants) == tskey(u, q, instants)
    if ct == 'symbol':
        return symbol_key(p) == symbol_key(q)
    return p == q


def bags(p, q, instants):
    if len(p) != len(q) or sorted(map(repr, (f for f, _ in p))) != sorted(map(repr, (f for f, _ in q))):
        return False
    out = True
    for f in set(f for f, _ in p):
        xs, ys = [c for g, c in p if g == f], [c for g, c in q if g == f]
        best = False
        for perm in permutations(ys):
            r = both(eq(c, d, instants) for c, d in zip(xs, perm))
            if r:
                best = True
                break
            if r is None:
                best = None
        if best is False:
            return False
        if best is None:
            out = None
    return out


def compare(x, y, ox, oy, rec, inst=True):
    E = ion().ion_equals
    for instants in (False, True) if inst else (False,):
        want = eq(x, y, instants)
        if want is None:
            rec.outcome('not judged')
            continue
        kw = {'timestamps_instants_only': True} if instants else {}
        for p, q, how in ((ox, oy, ''), (oy, ox, ' (operands swapped)')):
            try:
                got = E(p, q, **kw)
            except Exception as e:
                raise Violation('ion_equals of %r and %r%s raises %s: %s' % (x, y, how, type(e).__name__, e))
            if bool(got) != want:
                raise Violation('ion_equals of %r and %r%s%s is %r' % (x, y, how, ', instants only,' if instants else '', got))
        rec.trans(2)
        rec.outcome('equal' if want else 'different')


_ALPHA = {}


def alphabet(name):
    if name not in _ALPHA:
        nodes = ALPHABETS[name]()
        # Two objects for each value: equality is not identity.
        _ALPHA[name] = [(n, build(n), build(n)) for n in nodes]
    return _ALPHA[name]


def pair(payload, rec):
    name, k, lo, hi = payload
    al = alphabet(name)
    x, ox, _ = al[k]
    for j in range(lo, min(hi, len(al))):
        y, _, oy = al[j]
        compare(x, y, ox, oy, rec)
        rec.n_states += 1
    rec.trace()


_DENSE = []


def near(payload, rec):
    """A scalar of the dense families against another one made alike and the next ones of its family."""
    if not _DENSE:
        _DENSE.extend(V.dense_scalars())
    x = _DENSE[payload]
    ox = build(x)
    for y in _DENSE[payload:payload + NEAR]:
        compare(x, y, ox, build(y), rec)
        rec.n_states += 1
    rec.trace()


def one(payload, rec):
    """A pair given explicitly."""
    x, y = payload
    compare(x, y, build(x), build(y), rec)
    rec.state(payload)
    rec.trace()


def mutants(n):
    """Every value that differs from n by one small change (and is not equal to it), and some that are equal."""
    a, t, p = n
    if a:
        yield (a[1:], t, p)
        yield (a + a[:1], t, p)
        if len(a) > 1 and a[0] != a[1]:
            yield ((a[1], a[0]) + a[2:], t, p)
    else:
        yield (('zz',), t, p)
    if p is None:
        yield (a, 'int' if t != 'int' else 'null', None)
        return
    yield (a, t, None) if t != 'null' else (a, 'int', None)
    if t in ('list', 'sexp'):
        yield (a, 'sexp' if t == 'list' else 'list', p)
        yield (a, t, p + (N('null'),))
        yield (a, t, (N('int', 77),) + p)
        for k in sorted(set([0, 1, len(p) // 2, len(p) - 2, len(p) - 1])):
            if 0 <= k < len(p):
                yield (a, t, p[:k] + p[k + 1:])
                if k:
                    yield (a, t, p[:k - 1] + (p[k], p[k - 1]) + p[k + 1:])
                for m in mutants(p[k]):
                    yield (a, t, p[:k] + (m,) + p[k + 1:])
    elif t == 'struct':
        yield (a, t, p + (('a', N('int', 77)),))
        yield (a, t, p[::-1])
        for k in sorted(set([0, 1, len(p) // 2, len(p) - 2, len(p) - 1])):
            if 0 <= k < len(p):
                yield (a, t, p[:k] + p[k + 1:])
                yield (a, t, p[:k] + (('zz', p[k][1]),) + p[k + 1:])
                if len(p) < 6:
                    yield (a, t, p[:k] + (p[k],) + p[k:])
                for m in mutants(p[k][1]):
                    yield (a, t, p[:k] + ((p[k][0], m),) + p[k + 1:])
    elif t in ('string', 'clob', 'blob'):
        yield (a, t, p + p[:0].__class__(b'x' if t != 'string' else 'x'))
        yield (a, {'string': 'symbol', 'clob': 'blob', 'blob': 'clob'}[t], p)
        if p:
            yield (a, t, p[:-1])
    elif t == 'int':
        yield (a, t, p + 1)
        yield (a, t, -p)
    elif t == 'symbol':
        yield (a, t, 0 if p != 0 else 'x')
        if isinstance(p, str):
            yield (a, t, p + 'x')
    elif t == 'bool':
        yield (a, t, not p)
        yield (a, 'int', int(p))


def mutate(payload, rec):
    x = payload
    ox = build(x)
    compare(x, x, ox, build(x), rec)
    for y in mutants(x):
        compare(x, y, ox, build(y), rec, inst=False)
        rec.n_states += 1
    rec.trace()


def loaded(payload, rec):
    """What is loaded equals what was dumped, whatever the route."""
    i = ion()
    o = build(payload)
    forms = [i.loads(i.dumps(o, binary=True)), i.loads(i.dumps(o, binary=False)), i.loads(i.dumps(o, binary=False, indent=' '))]
    for f in forms:
        for g in [o] + forms:
            if not i.ion_equals(f, g) or not i.ion_equals(g, f):
                raise Violation('loaded forms of %r are not equal: %r, %r' % (payload, f, g))
            rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('loaded')


# -- histories: two values, compared after each change made in place to one or the other ------------------------------

SEQ_OPS = ('same', 'set0', 'set-', 'append', 'pop', 'insert', 'del0', 'reverse', 'type', 'annot')
STRUCT_OPS = ('same', 'set', 'set-', 'setnew', 'add', 'add2', 'del', 'del-', 'type', 'annot')
HOLDERS = ('ionlist', 'ionsexp', 'list', 'ionstruct', 'dict', 'multimap')
FORMS = ('top', 'ionlist', 'list', 'tuple', 'ionstruct', 'dict', 'multimap')


def holder(kind, n):
    """A node (mutable, as a list) of n elements."""
    leaves = [N('int', k % 5) if k % 3 else N('string', 's') for k in range(n)]
    if kind == 'ionlist':
        return [(), 'list', leaves]
    if kind == 'ionsexp':
        return [(), 'sexp', leaves]
    if kind == 'list':
        return ['P', 'list', leaves]
    fs = [('f%d' % k, v) for k, v in enumerate(leaves)]
    return {'ionstruct': [(), 'struct', fs], 'dict': ['P', 'dict', fs], 'multimap': ['P', 'multimap', fs]}[kind]


def freeze(n):
    return (n[0], n[1], tuple(n[2]))


def wrapped(form, node, obj):
    if form == 'top':
        return node, obj
    i = ion()
    one = N('int', 1)
    if form == 'ionlist':
        return L(one, node, one), i.st.IonPyList.from_value(i.by_name['list'], [build(one), obj, build(one)])
    if form == 'list':
        return P('list', (one, node)), [build(one), obj]
    if form == 'tuple':
        return P('tuple', (node, one)), (obj, build(one))
    if form == 'dict':
        return P('dict', (('k', node), ('o', one))), {'k': obj, 'o': build(one)}
    m = i.core.Multimap() if form == 'multimap' else i.st.IonPyDict()
    if form == 'ionstruct':
        m.ion_type = i.by_name['struct']
    m.add_item('o', build(one))
    m.add_item('k', obj)
    fs = (('o', one), ('k', node))
    return (N('struct', fs), m) if form == 'ionstruct' else (P('multimap', fs), m)


def change(node, obj, op):
    """The change on the node and on the object; False where it does not apply."""
    i = ion()
    nine = N('int', 9)
    p = node[2]
    if op == 'annot':
        if node[0] == 'P':
            return False
        node[0] = () if node[0] else ('a',)
        obj.ion_annotations = node[0]
        return True
    if op == 'type':
        if node[1] not in ('list', 'sexp') or node[0] == 'P':
            return False
        node[1] = 'sexp' if node[1] == 'list' else 'list'
        obj.ion_type = i.by_name[node[1]]
        return True
    if node[1] in ('list', 'sexp'):
        if op == 'append':
            p.append(nine)
            obj.append(build(nine))
        elif op == 'insert':
            p.insert(0, nine)
            obj.insert(0, build(nine))
        elif not p:
            return False
        elif op == 'same':
            obj[-1] = build(p[-1])
        elif op == 'set0':
            p[0] = nine
            obj[0] = build(nine)
        elif op == 'set-':
            p[-1] = nine
            obj[-1] = build(nine)
        elif op == 'pop':
            p.pop()
            obj.pop()
        elif op == 'del0':
            del p[0], obj[0]
        elif op == 'reverse':
            p.reverse()
            obj.reverse()
        return True
    names = [f for f, _ in p]
    if op in ('set', 'set-', 'setnew', 'same'):
        f = 'new' if op == 'setnew' else 'f0' if op == 'set' else 'f%d' % (len(names) - 1)
        if f not in names and op != 'setnew':
            return False
        v = nine if op != 'same' else [c for g, c in p if g == f][-1]
        p[:] = [(g, c) for g, c in p if g != f] + [(f, v)]
        obj[f] = build(v)
    elif op in ('add', 'add2'):
        if node[1] == 'dict':
            return False
        f = 'f0' if op == 'add' else 'new'
        p.append((f, nine))
        obj.add_item(f, build(nine))
    else:
        f = 'f0' if op == 'del' else 'f%d' % (len(names) - 1)
        if f not in names:
            return False
        p[:] = [(g, c) for g, c in p if g != f]
        del obj[f]
    return True


def history(payload, rec):
    kind, n, form, ops = payload
    x, y = holder(kind, n), holder(kind, n)
    hx, hy = build(freeze(x)), build(freeze(y))
    fx, ox = wrapped(form, freeze(x), hx)
    fy, oy = wrapped(form, freeze(y), hy)
    compare(fx, fy, ox, oy, rec, inst=False)
    for side, op in ops:
        if not change(*((x, hx) if side == 0 else (y, hy)), op):
            break
        nx, ny = wrapped(form, freeze(x), hx)[0], wrapped(form, freeze(y), hy)[0]
        try:
            compare(nx, ny, ox, oy, rec, inst=False)
        except Violation as e:
            raise Violation('after %r on %s of %d in %s: %s' % (ops, kind, n, form, e))
        rec.n_states += 1
    rec.trace()


def g_histories(tier):
    q = tier == 'quick'
    for kind in HOLDERS:
        ops = [(s, o) for s in (0, 1) for o in (SEQ_OPS if kind in ('ionlist', 'ionsexp', 'list') else STRUCT_OPS)]
        for form in FORMS:
            for n in (0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100):
                if q and form != 'top' and n not in (1, 2, 9, 17, 33):
                    continue
                for h in product(ops, repeat=2):
                    yield kind, n, form, h
            for n in (2,) if q else (1, 2, 3, 9, 17):
                for h in product(ops, repeat=3):
                    if q and (form not in ('top', 'ionlist', 'ionstruct') or h[0][0]):
                        continue
                    yield kind, n, form, h


KINDS = {'ambient': V.ambient(near), 'history': history, 'near': near, 'pair': pair, 'one': one, 'mutate': mutate, 'loaded': loaded}


def plain_of(n, k=0):
    """Plain forms of an unannotated node."""
    a, t, p = n
    if a:
        return []
    if p is None:
        return [P('null')] if t == 'null' else []
    if t in ('bool', 'int', 'float', 'decimal', 'timestamp'):
        return [P(t, p)]
    if t == 'symbol':
        return [P('token', p)]
    if t == 'string':
        return [P('str', p)]
    if t in ('clob', 'blob'):
        return [P('bytes', p)]
    if t in ('list', 'sexp'):
        return [P('list', p), P('tuple', p)]
    if len(set(f for f, _ in p)) == len(p):
        return [P('dict', p), P('multimap', p)]
    return [P('multimap', p)]


DTS = [P('datetime', d) for d in [(2000, 1, 1, 1, 2, 3, 1, 64), (2000, 1, 1, 1, 2, 3, 0, None), (2000, 1, 1, 1, 2, 3, 123456, 0), (2000, 1, 1, 0, 0, 0, 0, 0), (2000, 1, 1, 0, 0, 0, 0, None),
                                  (2000, 1, 1, 1, 2, 3, 999999, -64), (2000, 1, 1, 1, 2, 3, 100000, 0),
                                  (2000, 1, 1, 1, 2, 3, 0, 'none'), (2000, 1, 1, 0, 0, 0, 0, 'none'), (2000, 1, 1, 1, 2, 3, 123456, 'none')]]
TS = [N('timestamp', t) for t in alpha.STAMPS + [
    ('s', 2000, 1, 1, 1, 2, 3, (0, 6), None), ('s', 2000, 1, 1, 1, 2, 3, (0, 5), None), ('s', 2000, 1, 1, 1, 2, 3, None, None), ('s', 2000, 1, 1, 1, 2, 3, (123456, 6), 0), ('s', 2000, 1, 1, 1, 2, 3, (1234560, 7), 0),
    ('s', 2000, 1, 1, 2, 2, 3, (123456, 6), 60), ('s', 2000, 1, 1, 0, 2, 3, (123456, 6), -60), ('s', 1999, 12, 31, 23, 2, 3, (123456, 6), -120), ('s', 2000, 1, 1, 1, 2, 3, (100000, 6), 0),
    ('s', 2000, 1, 1, 1, 2, 3, (10, 2), 0), ('s', 2000, 1, 1, 1, 2, 3, (1, 1), 0), ('s', 2000, 1, 1, 1, 2, 3, (1234561, 7), 0), ('s', 2000, 1, 1, 1, 2, 3, (1234562, 7), 0), ('s', 2000, 1, 1, 0, 0, 0, (0, 6), 0),
    ('m', 2000, 1, 1, 1, 0, None, None, 60), ('M', 2000, 1, None, None, None, None, None, None), ('D', 2000, 1, 1, None, None, None, None, None), ('s', 2000, 1, 1, 0, 0, 0, (0, 6), None)]]
SYMBOLS = [N('symbol', s) for s in ['a', 'b', 'A', '', 'name', '$10', 'null', '\u00e9', 'e\u0301', 'None', 0, ('#', 'a', 10), ('#', 'a', 11), ('#', 'b', 10), ('@', 'T', 1, 10), ('@', 'T', 1, 11), ('@', 'T', 2, 10),
                                      ('@', 'U', 1, 10), ('@', 'T', 1, 1), ('#', '', 10), ('#', 'name', 4), ('@', '', 1, 10)]]


def a_scalars():
    ds = [(s, c, e) for s in (0, 1) for c in (0, 1, 10, 100, 15, 2 ** 70) for e in (0, -1, -2, 1, 2, 300, -6200)] + [(0, 10 ** 30 + 1, -3), (0, 10 ** 30 + 2, -3), (0, 10 ** 31 + 10, -4)]
    ns = [0, 1, -1, 2, 10, 255, 2 ** 53, 2 ** 53 + 1, 2 ** 64, -2 ** 64, 10 ** 30]
    fs = [0.0, -0.0, 1.0, -1.0, 2.0 ** 53, 1.5, float('inf'), float('-inf'), float('nan'), 5e-324, 1e30, 10.0, 255.0]
    out = [N(t) for t in ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp', 'struct')]
    out += [N('bool', True), N('bool', False)] + [N('int', n) for n in ns] + [F(f) for f in fs] + [N('decimal', d) for d in ds]
    out += TS + SYMBOLS
    out += [N('string', s) for s in ('', 'a', 'b', 'A', 'None', 'null', '$10', '\u00e9', 'e\u0301', 'a\x00', '1', 'true')]
    out += [N(t, b) for t in ('clob', 'blob') for b in (b'', b'a', b'b', b'\xff', b'None')]
    out += [L(), SX(), ST(), L(N('int', 1)), SX(N('int', 1)), ST(('a', N('int', 1))), ST(('a', N('null'))), ST((0, N('int', 1))), ST(('None', N('int', 1)))]
    return out


def a_annotated():
    base = [N('null'), N('int'), N('int', 1), N('bool', True), F(1.0), N('decimal', (0, 1, 0)), TS[17], N('symbol', 'a'), N('symbol', 0), N('string', 'a'), N('clob', b'a'), N('blob', b'a'), L(), SX(), ST(), L(N('int', 1))]
    anns = [(), ('a',), ('b',), ('a', 'a'), ('a', 'b'), ('b', 'a'), (('#', 'a', 10),), (('#', 'a', 11),), (0,), (('@', 'T', 1, 10),), (('@', 'T', 1, 12),), (('@', 'T', 2, 10),), (('@', 'U', 1, 10),), ('',), ('a', 'b', 'a')]
    return [(a, t, p) for _, t, p in base for a in anns]


def a_plain():
    s = [n for n in a_scalars() if n[1] not in ('list', 'sexp', 'struct') or n[2] is not None]
    out = list(s)
    for n in s:
        out += plain_of(n)
    out += DTS
    ints = [N('int', 1), P('int', 1), F(1.0), P('float', F(1.0)[2]), N('bool', True), P('bool', True)]
    out += ints + [ann(x, 'a') for x in ints if x[0] != 'P']
    return out


def a_mixed():
    leaves = [N('int', 1), P('int', 1), N('int', 1, 'a'), N('string', 'a'), P('str', 'a'), N('symbol', 'a'), N('null'), P('null'), TS[17], P('bytes', b'a'), P('bool', True), N('int')]
    level1 = []
    for x in leaves:
        level1 += [L(x), SX(x), P('list', (x,)), P('tuple', (x,)), ST(('a', x)), P('dict', (('a', x),)), P('multimap', (('a', x),)), ST(('a', x), ('a', N('int', 1))), P('multimap', (('a', P('int', 1)), ('a', x))),
                   L(x, x), P('list', (x, N('int', 1)))]
    out = leaves + level1
    for x in level1[:88:3]:
        out += [L(x), P('tuple', (x,)), ST(('b', x)), P('dict', (('b', x),)), ann(L(x), 'a')]
    return out


def a_trees():
    leaves = [N('int', 1), N('symbol', 'a', 'b'), N('int', 1, 'b'), ST()]
    out = []
    for n in (1, 2, 3):
        out += list(alpha.trees(n, leaves, ('a', 'b')))
    return out


def a_structs():
    vals = [N('int', 1), N('int', 2), L(N('int', 1))]
    fs = [(n, v) for n in ('a', 'b') for v in vals]
    out = []
    for k in range(0, 4):
        out += [N('struct', c) for c in product(fs, repeat=k)]
    return out


def a_stamps():
    """One instant under every offset, one local time under every offset, every single field changed, at every precision."""
    offs = [None, 0, 1, -1, 30, -30, 59, 60, 61, 90, -60, -90, -480, 330, 720, -720, 1439, -1439]
    frs = [None, (0, 1), (5, 1), (50, 2), (500000, 6), (5000000, 7), (5000001, 7), (500001, 6)]
    base = datetime.datetime(2000, 3, 1, 12, 30, 30)
    out = {}
    for o in offs:
        for local in (base, base + datetime.timedelta(minutes=o or 0)):
            y, mo, d, h, mi, s = local.timetuple()[:6]
            out['m', y, mo, d, h, mi, None, None, o] = 1
            out['s', y, mo, d, h, mi, s, None, o] = 1
            out['s', y, mo, d, h, mi, s, (5, 1), o] = 1
            out['s', y, mo, d, h, mi, s, (500000, 6), o] = 1
    for f in frs:
        for o in (None, 0, 90):
            out['s', 2000, 3, 1, 12, 30, 30, f, o] = 1
    fields = [2000, 3, 1, 12, 30, 30]
    for k in range(6):
        for dv in (1, -1):
            g = list(fields)
            g[k] += dv
            if g[2] == 0:
                g[1:3] = [2, 29]
            for prec, n in (('Y', 1), ('M', 2), ('D', 3), ('m', 5), ('s', 6)):
                v = tuple(g[:n]) + (None,) * (6 - n)
                out[(prec,) + v + (None, 60 if n > 3 else None)] = 1
                if n > 3:
                    out[(prec,) + v + (None, None)] = 1
    for prec, n in (('Y', 1), ('M', 2), ('D', 3)):
        out[(prec, 2000, 1, 1)[:n + 1] + (None,) * (8 - n)] = 1
    out['m', 2000, 1, 1, 0, 0, None, None, None] = 1
    out['s', 2000, 1, 1, 0, 0, 0, None, None] = 1
    dts = [P('datetime', t[1:7] + (us, t[8])) for t in list(out) if t[0] == 's' and t[7] in ((5, 1),) for us in (500000, 0)]
    return [N('timestamp', t) for t in out] + dts[::3]


ALPHABETS = {'stamps': a_stamps, 'scalars': a_scalars, 'annotated': a_annotated, 'plain': a_plain, 'mixed': a_mixed, 'trees': a_trees, 'structs': a_structs}
NEAR = 4



def four():
    """Structs of four and five fields against all permutations, and against permutations with one value changed."""
    vals = [N('int', 1), N('int', 2), ST(('a', N('int', 1)), ('a', N('int', 2)))]
    fs = [('a', vals[0]), ('a', vals[1]), ('a', vals[2]), ('b', vals[0]), ('b', vals[2])]
    for c in product(fs, repeat=4):
        if list(c) != sorted(c, key=repr):
            continue
        for q in set(permutations(c)):
            yield N('struct', c), N('struct', q)
            for k in range(4):
                for v in vals:
                    yield N('struct', c), N('struct', q[:k] + ((q[k][0], v),) + q[k + 1:])
    # Different order inside of repeated, nested structs.
    inner = [ST(('x', N('int', a)), ('x', N('int', b))) for a in (1, 2) for b in (1, 2)]
    for c in product(inner, repeat=3):
        for d in product(inner, repeat=3):
            yield ST(*[('r', v) for v in c]), ST(*[('r', v) for v in d])


def jobs(tier):
    out = []
    size = {n: len(ALPHABETS[n]()) for n in ALPHABETS}
    for n in sorted(size):
        parts = 16
        out += [('pair', (n, size[n], i, parts)) for i in range(parts)]
    out += [('near', (i, 16)) for i in range(16)]
    out += [('one', (i, 8)) for i in range(8)]
    out += [('history', (tier, i, 16)) for i in range(16)]
    out += [('ambient', (i, 8, k)) for i in range(8) for k in range(len(V.AMBIENT))]
    q = tier == 'quick'
    for g, parts in (('deep', 8), ('annots', 8), ('triples', 8), ('trees4', 8)) if q else (('deep', 16), ('ctx', 16), ('pairs', 16), ('triples', 16), ('annots', 16), ('names', 16), ('lengths', 16), ('trees4', 16), ('trees5', 32)):
        out += [('mutate', (g, i, parts)) for i in range(parts)]
    for g in ('annots', 'triples') if q else ('ctx', 'annots', 'pairs', 'triples', 'names', 'trees4', 'deep'):
        out += [('loaded', (g, i, 8)) for i in range(8)]
    return out


def cases(kind, args):
    if kind == 'pair':
        name, n, i, parts = args
        for k in range(i, n, parts):
            for lo in range(0, n, 64):
                yield name, k, lo, lo + 64
    elif kind == 'near':
        n = sum(1 for _ in V.dense_scalars())
        w = (n + args[1] - 1) // args[1]
        for k in range(args[0] * w, min(n, (args[0] + 1) * w)):
            yield k
    elif kind == 'ambient':
        for k, x in enumerate(V.dense_scalars()):
            if k % args[1] == args[0] and (x[1] in ('decimal', 'timestamp') and k % 3 == args[2] or x[1] in ('int', 'float') and k % 30 == args[2]):
                yield k, args[2]
    elif kind == 'history':
        for c in V.shard(g_histories(args[0]), *args[1:]):
            yield c
    elif kind == 'one':
        for k, c in enumerate(four()):
            if k % args[1] == args[0]:
                yield c
    else:
        g, i, n = args
        gen = (v for v in V.values(g) if g != 'deep' or size_ok(v))
        for v in V.shard(gen, i, n):
            yield v


def size_ok(v):
    d = 0
    while v[2] and v[1] in ('list', 'sexp', 'struct'):
        v = v[2][-1] if v[1] != 'struct' else v[2][-1][1]
        d += 1
    return d <= 25
