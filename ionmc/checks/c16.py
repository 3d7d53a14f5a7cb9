# -*- coding: utf-8 -*-
"""C16: every operation history of the struct mapping up to the depth, against a dictionary of lists."""
from itertools import product

from .. import refbin, reftext, alpha, values as V
from ..harness import Violation
from ..model import ion, N, L, ST, canon, bag, to_py, from_py
from ..refsym import RefError, Unspecified

PID = 'C16'
RULE = ('Every history up to the depth of adding, assigning, deleting, popping, defaulting, clearing, updating, reading and copying, from every initial mapping (empty, from a dict, from a mapping with '
        'repetitions, loaded from text and from binary), for Multimap and IonPyDict; after every operation length, keys, membership, subscription, all values and items are compared with '
        'a model (name -> list of values), and every mapping copied from or copied to must be as its own model says. At the end of each history the mapping is copied into an Ion struct and written in both formats. Large: '
        'repetition counts and name sets up to the limits. State = distinct (class, model contents), transition = operation.')
ASSUMPTIONS = ['update() with a multi-valued argument, values() and == are not part of the property', 'the order of different names is not judged']

OPS = [('add', 'a', 1), ('add', 'a', 2), ('add', 'b', 1), ('set', 'a', 3), ('set', 'b', 4), ('del', 'a'), ('pop', 'b'), ('fork', 'copy'), ('fork', 'struct'), ('sd', 'a', 5), ('upd', 6), ('clear',), ('back',)]
OPS2 = [('add', 'a', 1), ('add', None, 2), ('add', '', 1), ('set', None, 3), ('del', None), ('pop', 'a'), ('fork', 'class'), ('fork', 'deep'), ('get', 'a'), ('add', 'a', 'L'), ('add', 'a', 'N'), ('set', 'a', 'N')]
INIT = ('empty', 'dict', 'multi', 'text', 'binary', 'text-fork')


class Model(object):
    def __init__(self, d=None):
        self.d = dict((k, list(v)) for k, v in (d or {}).items())

    def key(self):
        return tuple(sorted(((repr(k), tuple(map(repr, v))) for k, v in self.d.items())))


def val(v):
    i = ion()
    if v == 'N':
        return None
    if v == 'L':
        return i.st.IonPyList.from_value(i.core.IonType.LIST, [])
    return v


def same(x, y):
    return x is y or x == y


def observe(m, md, what):
    def bad(msg, *a):
        raise Violation('%s: %s (expected contents %r)' % (what, msg % a, md.d))
    n = sum(len(v) for v in md.d.values())
    if len(m) != n:
        bad('length %d', len(m))
    if bool(m) != (n > 0):
        bad('truth %r', bool(m))
    keys = list(m)
    if len(keys) != len(md.d) or set(keys) != set(md.d):
        bad('iterates %r', keys)
    if set(m.keys()) != set(md.d) or len(m.keys()) not in (len(md.d), n):
        bad('keys %r', list(m.keys()))
    items, items2 = list(m.items()), list(m.iteritems())
    if len(items) != n:
        bad('items %r', items)
    for its in (items, items2):
        got = {}
        for k, v in its:
            got.setdefault(k, []).append(v)
        if set(got) != set(md.d) or any(len(got[k]) != len(md.d[k]) or not all(map(same, got[k], md.d[k])) for k in got):
            bad('items %r', its)
    for k in ('a', 'b', 'zz', None, ''):
        have = md.d.get(k)
        if (k in m) != (have is not None):
            bad('%r in it is %r', k, k in m)
        if have is None:
            for f in (lambda: m[k], lambda: m.get_all_values(k)):
                try:
                    r = f()
                except KeyError:
                    continue
                bad('%r gives %r', k, r)
            if m.get(k) is not None or m.get(k, 7) != 7:
                bad('get(%r) gives %r', k, m.get(k))
        else:
            if not same(m[k], have[-1]) or not same(m.get(k), have[-1]) or not same(m.get(k, 7), have[-1]):
                bad('%r gives %r', k, m[k])
            alls = m.get_all_values(k)
            if len(alls) != len(have) or not all(map(same, list(alls), have)):
                bad('all values of %r are %r', k, list(alls))


_LOADED = {}


def start(cls, init):
    i = ion()
    C = i.core.Multimap if cls == 'Multimap' else i.st.IonPyDict
    if init == 'empty':
        return C(), Model()
    if init == 'dict':
        return C({'a': 1, 'b': 2}), Model({'a': [1], 'b': [2]})
    if init == 'multi':
        s = i.core.Multimap()
        s.add_item('a', 1)
        s.add_item('b', 2)
        s.add_item('a', 3)
        return C(s), Model({'a': [1, 3], 'b': [2]})
    doc = '{a:1,b:2,a:3}'
    data = doc if init[:4] == 'text' else b'\xe0\x01\x00\xea\xea\x81\x83\xde\x86\x87\xb4\x81a\x81b\xd9\x8a\x21\x01\x8b\x21\x02\x8a\x21\x03'
    m = i.loads(data)
    if init == 'text-fork':
        m = C(m)
    md = Model({'a': [1, 3], 'b': [2]})
    return m, md


def fork(m, how):
    import copy
    i = ion()
    if how == 'copy':
        return copy.copy(m)
    if how == 'deep':
        return copy.deepcopy(m)
    if how == 'struct':
        return i.st.IonPyDict.from_value(i.core.IonType.STRUCT, m)
    return type(m)(m)


def plain(m):
    """As written: [(key, repr)]."""


_WRITTEN = set()


def node_of(md):
    def one(v):
        if v is None:
            return N('null')
        return L() if not isinstance(v, int) else N('int', int(v))
    return N('struct', tuple((0 if k is None else k, one(v)) for k in md.d for v in md.d[k]))


def written(m, md, what):
    i = ion()
    s = i.st.IonPyDict.from_value(i.core.IonType.STRUCT, m)
    observe(s, md, what + ' as an Ion struct')
    want = bag(node_of(md))
    for obj in (s, m):
        if getattr(obj, 'ion_type', 1) is None:
            continue        # an IonPyDict made by hand needs its type
        if obj is m and not isinstance(m, i.st.IonPyDict):
            continue
        for binary in (True, False):
            data = i.dumps(obj, binary=binary)
            try:
                got = refbin.decode_stream(data, {}) if binary else reftext.parse_stream(data)
            except (RefError, Unspecified) as e:
                raise Violation('%s is written as %r: %s' % (what, data, e))
            # per name, in order
            if [canon(g) for g in got] != [canon(node_of(md))]:
                raise Violation('%s is written as %r, which denotes %r, not %r' % (what, data, got, node_of(md)))
            back = i.loads(data)
            if canon(from_py(back)) != canon(node_of(md)):
                raise Violation('%s from %r is read as %r' % (what, data, from_py(back)))


def history(payload, rec):
    cls, init, ops = payload
    m, md = start(cls, init)
    kept = []
    observe(m, md, repr(payload[:2]))
    for n, op in enumerate(ops):
        what = '%s %s after %r' % (cls, init, ops[:n + 1])
        d = md.d
        if op[0] == 'add':
            v = val(op[2])
            m.add_item(op[1], v)
            d.setdefault(op[1], []).append(v)
        elif op[0] == 'set':
            m[op[1]] = val(op[2])
            d[op[1]] = [m[op[1]]] if op[2] == 'N' else [op[2]]
            if op[2] == 'N' and m[op[1]] is not None:
                raise Violation('%s: None is stored as %r' % (what, m[op[1]]))
        elif op[0] == 'get':
            if op[1] in d and not same(m[op[1]], d[op[1]][-1]):
                raise Violation('%s reads %r' % (what, m[op[1]]))
        elif op[0] in ('del', 'pop'):
            k = op[1]
            try:
                if op[0] == 'del':
                    del m[k]
                else:
                    r = m.pop(k)
                    if k in d and not same(r, d[k][-1]):
                        raise Violation('%s: pop gives %r' % (what, r))
                if k not in d:
                    raise Violation('%s: %s of a name it has not is no error' % (what, op[0]))
            except KeyError:
                if k in d:
                    raise Violation('%s raises KeyError' % what)
            d.pop(k, None)
        elif op[0] == 'sd':
            r = m.setdefault(op[1], op[2])
            if op[1] not in d:
                d[op[1]] = [op[2]]
            if not same(r, d[op[1]][-1]):
                raise Violation('%s: setdefault gives %r' % (what, r))
        elif op[0] == 'upd':
            m.update({'a': op[1], 'b': 0})
            d['a'], d['b'] = [op[1]], [0]
        elif op[0] == 'clear':
            m.clear()
            d.clear()
        elif op[0] == 'fork':
            f = fork(m, op[1])
            if op[1] == 'deep':
                observe(m, md, what)
            kept.append((m, md))
            m, md = f, Model(d)
            if op[1] == 'deep':     # new value objects; compare by content from here on
                md.d = dict((k, [v for v in m.get_all_values(k)] if [repr(v) for v in m.get_all_values(k)] == [repr(v) for v in vs] else vs) for k, vs in md.d.items())
        elif op[0] == 'back' and kept:
            kept.insert(0, (m, md))
            m, md = kept.pop()
        observe(m, md, what)
        rec.trans()
        rec.state((cls, md.key()))
    for k, kd in kept:
        observe(k, kd, '%r, the mapping copied from or to' % (payload,))
    key = (cls, type(m).__name__, md.key(), getattr(m, 'ion_type', None) is None)
    if key not in _WRITTEN:
        _WRITTEN.add(key)
        written(m, md, repr(payload))
        rec.count('contents_written')
    rec.trace()
    rec.outcome('%d values' % sum(len(v) for v in md.d.values()))


def large(payload, rec):
    """n values of one name between others: everything kept, in order."""
    n, names, cls = payload
    i = ion()
    C = i.core.Multimap if cls == 'Multimap' else i.st.IonPyDict
    m, md = C(), Model()
    for k in range(n):
        name = 'f%d' % (k * 7 % names)
        m.add_item(name, k)
        md.d.setdefault(name, []).append(k)
    observe(m, md, repr(payload))
    for name in md.d:
        if list(m.get_all_values(name)) != md.d[name] or m[name] != md.d[name][-1]:
            raise Violation('%r: %r has %r' % (payload, name, list(m.get_all_values(name))))
    written(m, md, repr(payload))
    c = C(m)
    name = 'f0'
    if name in md.d:
        m[name] = -1
        old = md.d[name]
        md2 = Model(md.d)
        md2.d[name] = [-1]
        observe(m, md2, repr(payload))
        del m[name]
        del md2.d[name]
        observe(m, md2, repr(payload))
        observe(c, md, repr(payload))
    rec.state(payload)
    rec.trace()
    rec.trans(n)
    rec.outcome('large')


def nested(payload, rec):
    """A struct of any values keeps them through copying and serialisation."""
    i = ion()
    node = payload
    obj = to_py(node)
    m = i.core.Multimap()
    for k, v in obj.items():
        m.add_item(k, v)
    s = i.st.IonPyDict.from_value(i.core.IonType.STRUCT, m)
    if canon(from_py(s)) != canon(node) or canon(from_py(i.st.IonPyDict.from_value(i.core.IonType.STRUCT, s))) != canon(node):
        raise Violation('%r copied into a struct is %r' % (node, from_py(s)))
    for binary in (True, False):
        back = i.loads(i.dumps(s, binary=binary))
        if canon(from_py(back)) != canon(node):
            raise Violation('%r is read back as %r' % (node, from_py(back)))
    rec.trans(4)
    rec.trace()
    rec.n_states += 1
    rec.outcome('nested')


KINDS = {'history': history, 'large': large, 'nested': nested}


def jobs(tier):
    q = tier == 'quick'
    out = []
    for cls in ('Multimap', 'IonPyDict'):
        for k, init in enumerate(INIT):
            if init[:4] in ('text', 'bina') and cls == 'Multimap':
                continue
            d = (5 if init == 'empty' and cls == 'IonPyDict' else 4) if q else (6 if init == 'empty' else 5)
            out += [('history', (cls, init, 1, d, i, 16)) for i in range(16)]
            out += [('history', (cls, init, 2, 3 if q else d, i, 8)) for i in range(8)]
    out += [('large', (0,)), ('large', (1,))]
    out += [('nested', (i, 16)) for i in range(16)]
    return out


def cases(kind, args):
    if kind == 'history':
        cls, init, which, depth, i, n = args
        ops = OPS if which == 1 else OPS2
        for k, h in enumerate(product(ops, repeat=depth)):
            if k % n == i:
                yield cls, init, h
    elif kind == 'large':
        for n in (0, 1, 2, 3, 5, 13, 14, 15, 64, 127, 128, 500, 3000):
            for names in (1, 2, 3, 100, 5000):
                yield n, names, ('Multimap', 'IonPyDict')[args[0]]
    else:
        i, n = args
        c = alpha.core()
        k = 0
        for x in c:
            for y in c:
                for fs in ((('a', x), ('a', y)), (('a', x), ('b', y), ('a', x)), ((0, x), (0, y)), (('', x), ('', y), ('a', ST(('b', x), ('b', y))))):
                    k += 1
                    if k % n == i:
                        yield ST(*fs)
