# -*- coding: utf-8 -*-
"""C17: every value of the enumerations through every copying, pickling and conversion route."""
import copy
import pickle
from itertools import product

from .. import alpha, aliasing as A, values as V
from ..harness import Violation
from ..model import ion, N, L, SX, ST, ann, canon, to_py, from_py, sym_to_py, sym_from_py, scalar_to_py, CONTAINERS

PID = 'C17'
RULE = ('Every value of the generators, constructed and loaded from text and from binary, through copy, deepcopy, pickle with every protocol, pairs of those routes in sequence, from_value with its own and with other annotations, to_event/from_event '
        'with every kind of field name; the result must have the class, type, annotations and content of the original by a structural comparison, be ion_equals to it and serialise identically. For containers every '
        'mutation of the copy (and of the original) at every level the route copies must leave the other side unchanged. Groups of values that Python takes for equal together; values holding one object several times, and values changed between copies, are copied likewise, as are numbers under decimal contexts the caller set. State = distinct (value, origin), transition = route taken.')
ASSUMPTIONS = ['values are pickled and unpickled by the same Python and library version', 'annotations are given as tuples']

PROTOCOLS = list(range(pickle.HIGHEST_PROTOCOL + 1))


def p(k):
    return lambda v: pickle.loads(pickle.dumps(v, k))


ROUTES = {'copy': copy.copy, 'deepcopy': copy.deepcopy}
for _k in PROTOCOLS:
    ROUTES['pickle%d' % _k] = p(_k)
DEEP = [r for r in ROUTES if r != 'copy']


def own(v):
    """Rebuilt from its own value."""
    i = ion()
    cls = type(v)
    value = None if isinstance(v, i.st.IonPyNull) else v
    return cls.from_value(v.ion_type, value, v.ion_annotations)


def origins(node):
    """-> [(origin, object)]"""
    i = ion()
    o = to_py(node)
    out = [('made', o)]
    if not unknown(node):
        out.append(('text', i.loads(i.dumps(o, binary=False))))
        out.append(('binary', i.loads(i.dumps(o, binary=True))))
    return out


def unknown(node):
    a, t, q = node
    if any(isinstance(s, tuple) for s in a):
        return True
    if q is None:
        return False
    if t == 'symbol':
        return isinstance(q, tuple)
    if t in ('list', 'sexp'):
        return any(unknown(c) for c in q)
    if t == 'struct':
        return any(isinstance(f, tuple) or unknown(c) for f, c in q)
    return False


def struct_form(v):
    """The node of a value with the attributes that the node leaves out."""
    i = ion()
    n = from_py(v)
    extra = [type(v).__name__, tuple(tok(s) for s in v.ion_annotations)]
    if v.ion_type is i.by_name['symbol'] and n[2] is not None:
        extra.append(tok(v))
    if v.ion_type is i.by_name['timestamp'] and n[2] is not None:
        extra += [v.microsecond, v.fractional_precision, v.tzinfo is None]
    if n[2] is not None and n[1] in ('list', 'sexp'):
        extra += [struct_form(c) for c in v]
    if n[2] is not None and n[1] == 'struct':
        extra += [(k, struct_form(c)) for k, c in v.items()]
    return (n, tuple(extra))


def tok(s):
    if isinstance(s, str) and not hasattr(s, 'text'):
        return str(s)
    loc = s.location
    return (s.text, s.sid, None if loc is None else (loc.name, loc.position))


def outputs(v, node):
    i = ion()
    if unknown(node):
        return None
    return (i.dumps(v, binary=True), i.dumps(v, binary=False), i.dumps(v, binary=False, indent=' '))


def judge(v, w, node, what, out=None):
    i = ion()
    if type(w) is not type(v):
        raise Violation('%s of %r is a %s' % (what, node, type(w).__name__))
    if w.ion_type is not v.ion_type:
        raise Violation('%s of %r has type %r' % (what, node, w.ion_type))
    f, g = struct_form(v), struct_form(w)
    if f != g:
        raise Violation('%s of %r is %r' % (what, node, g))
    if not i.ion_equals(v, w) or not i.ion_equals(w, v):
        raise Violation('%s of %r is not equal to it' % (what, node))
    if out is not None and outputs(w, node) != out:
        raise Violation('%s of %r serialises as %r, not %r' % (what, node, outputs(w, node), out))


def routes(payload, rec):
    node, full = payload
    i = ion()
    for origin, v in origins(node):
        if from_py(v) != node and canon(from_py(v)) != canon(node):
            raise Violation('%r (%s) is %r' % (node, origin, from_py(v)))
        out = outputs(v, node)
        f0 = struct_form(v)
        for name in sorted(ROUTES):
            try:
                w = ROUTES[name](v)
            except Exception as e:
                raise Violation('%s of %r (%s) raises %s: %s' % (name, node, origin, type(e).__name__, e))
            judge(v, w, node, '%s (%s)' % (name, origin), out if full or name in ('copy', 'deepcopy') else None)
            rec.trans()
        w = own(v)
        if (w.ion_type, canon(from_py(w))) != (v.ion_type, canon(from_py(v))) or not i.ion_equals(v, w) or outputs(w, node) != out:
            raise Violation('from_value of %r (%s) is %r' % (node, origin, from_py(w)))
        if hasattr(v, '_copy'):   # the library's own shallow copy, where there is one
            w = v._copy()
            same = (w.ion_type, canon(from_py(w)), [tok(s) for s in w.ion_annotations]) == (v.ion_type, canon(from_py(v)), [tok(s) for s in v.ion_annotations])
            if not same or not i.ion_equals(v, w) or outputs(w, node) != out:
                raise Violation('_copy of %r (%s) is %r' % (node, origin, from_py(w)))
            rec.trans()
        if full:
            for x, y in product(('copy', 'deepcopy', 'pickle0', 'pickle2', 'pickle4', 'from_value'), repeat=2):
                w = (ROUTES.get(y) or own)((ROUTES.get(x) or own)(v))
                judge(own(v) if 'from_value' in (x, y) else v, w, node, '%s after %s (%s)' % (y, x, origin))
                rec.trans()
        if struct_form(v) != f0:
            raise Violation('copying %r (%s) changed it' % (node, origin))
        rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome(node[1])


def plain(node):
    """The plain Python value that from_value and events carry."""
    a, t, q = node
    if q is None:
        return None
    if t in ('list', 'sexp'):
        return [to_py(c) for c in q]
    if t == 'struct':
        m = ion().core.Multimap()
        for f, c in q:
            m.add_item(None if f == 0 else f, to_py(c))
        return m
    return scalar_to_py(t, q)


ANN = [(), ('x',), ('x', 'y', 'x'), ('',)]


def convert(payload, rec):
    """from_value with other annotations; to_event, from_event."""
    i = ion()
    node = payload
    a, t, q = node
    T = i.by_name[t]
    E = i.core.IonEventType
    for origin, v in origins(node):
        cls = type(v)
        for ans in ANN + [tuple(i.sym.SymbolToken(s, None) for s in ('x', 'y')), (i.sym.SymbolToken(None, 0),)]:
            want = (tuple(sym_from_py(s) for s in ans), t, q)
            w = cls.from_value(T, None if q is None else v, ans)
            if canon(from_py(w)) != canon(want) or tuple(w.ion_annotations) != ans or w.ion_type is not T:
                raise Violation('from_value of %r (%s) with annotations %r is %r' % (node, origin, ans, from_py(w)))
            # From plain content.
            w = cls.from_value(T, plain(node), ans)
            if canon(from_py(w)) != canon(want):
                raise Violation('from_value of plain %r with annotations %r is %r' % (node, ans, from_py(w)))
            rec.trans(2)
        if struct_form(v)[0] != from_py(v) or canon(from_py(v)) != canon(node):
            raise Violation('from_value changed %r' % (node,))
        container = q is not None and t in CONTAINERS
        et = E.CONTAINER_START if container else E.SCALAR
        for field, in_struct in ((None, False), ('f', True), ('', True), (None, True), (i.sym.SymbolToken('g', None), True), (i.sym.SymbolToken(None, 0), True), ('f', False)):
            for depth in (None, 0, 3):
                e = v.to_event(et, field_name=field, in_struct=in_struct, depth=depth)
                if not in_struct:
                    ok = e.field_name is None
                else:
                    text = field if isinstance(field, str) or field is None else field.text
                    ok = e.field_name is not None and e.field_name.text == text and (text is not None or e.field_name.sid == 0)
                if not ok:
                    raise Violation('to_event of %r with field name %r has %r' % (node, field, e.field_name))
                if e.event_type is not et or e.ion_type is not T or tuple(e.annotations) != tuple(v.ion_annotations) or e.depth != depth:
                    raise Violation('to_event of %r gives %r' % (node, e))
                if (e.value is None) != (container or q is None):
                    raise Violation('to_event of %r has value %r' % (node, e.value))
                w = (i.st.IonPyNull if q is None else cls).from_event(e)
                if container:
                    if type(w) is not cls or w.ion_type is not T or tuple(w.ion_annotations) != tuple(v.ion_annotations) or len(w):
                        raise Violation('from_event of the start of %r is %r' % (node, w))
                else:
                    judge(v, w, node, 'from_event(to_event)')
                rec.trans(2)
        # From an event with the plain value.
        if not container:
            w = cls.from_event(i.core.IonEvent(E.SCALAR, T, plain(node), None, v.ion_annotations, 0))
            if from_py(w) != node:
                raise Violation('from_event with plain %r is %r' % (node, from_py(w)))
    rec.trace()
    rec.n_states += 1
    rec.outcome('converted')


def mutations(v, level):
    """[(description, function)] changing a container in place at every level up to the given one."""
    i = ion()
    out = []
    new = lambda: i.st.IonPyInt.from_value(i.core.IonType.INT, 999)

    def at(path, how):
        def go(x):
            for k in path:
                x = list(x.items())[k][1] if isinstance(x, i.core.Multimap) else x[k]
            how(x)
        return go

    def walk(x, path):
        if isinstance(x, list):
            hows = [('append', lambda y: y.append(new())), ('insert', lambda y: y.insert(0, new()))]
            if x:
                hows += [('set first', lambda y: y.__setitem__(0, new())), ('delete last', lambda y: y.__delitem__(-1)), ('clear', lambda y: y.__delitem__(slice(None))), ('reverse', lambda y: (y.reverse(), y.append(new())))]
        elif isinstance(x, i.core.Multimap):
            hows = [('add new', lambda y: y.add_item('zz', new()))]
            for k in list(x):
                hows += [('add %r' % k, lambda y, k=k: y.add_item(k, new())), ('set %r' % k, lambda y, k=k: y.__setitem__(k, new())), ('delete %r' % k, lambda y, k=k: y.__delitem__(k))]
        else:
            hows = []
        hows.append(('annotate', lambda y: setattr(y, 'ion_annotations', ('changed',))))
        for d, h in hows:
            out.append(('%s at %r' % (d, path), at(path, h)))
        if len(path) < level:
            kids = [c for _, c in x.items()] if isinstance(x, i.core.Multimap) else x if isinstance(x, list) else []
            for k, c in enumerate(kids):
                walk(c, path + (k,))
    walk(v, ())
    return out


def mutate(payload, rec):
    node = payload
    i = ion()
    for origin in range(len(origins(node))):
        which = dict((n, True) for n in ROUTES)
        for name in sorted(which) + ['from_value']:
            level = 0 if name in ('copy', 'from_value') else 4
            for d, change in mutations(origins(node)[origin][1], level):
                for side in (0, 1):
                    v = origins(node)[origin][1]
                    w = (ROUTES.get(name) or own)(v)
                    pair = (v, w)
                    before = [struct_form(v), struct_form(w)]
                    change(pair[side])
                    if struct_form(pair[1 - side]) != before[1 - side]:
                        raise Violation('%s of %r: "%s" on the %s changes the %s to %r' % (name, node, d, ('original', 'copy')[side], ('copy', 'original')[side], from_py(pair[1 - side])))
                    if struct_form(pair[side]) == before[side]:
                        raise Violation('%s of %r: "%s" has no effect' % (name, node, d))
                    rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('mutated')


def bare(payload, rec):
    """The base classes: Timestamp, SymbolToken, Multimap, OffsetTZInfo, alone and next to Ion-natured values in Python containers."""
    i = ion()
    k = payload
    from datetime import timedelta
    objs = [i.sym.SymbolToken('a', 3), i.sym.SymbolToken(None, 3, i.sym.ImportLocation('x', 3)), i.sym.SymbolToken('', None)]
    objs += [to_py(N('timestamp', t)) for t in alpha.STAMPS]
    from ..model import ts_to_py
    objs += [ts_to_py(t) for t in alpha.STAMPS]
    objs += [i.core.timestamp(2000, 1, 1, 1, 1, 1, 120000, precision=i.prec['s'], fractional_precision=2)]
    m = i.core.Multimap({'a': 1})
    m.add_item('a', 2)
    m.add_item(None, [1])
    objs.append(m)
    v = objs[k % len(objs)]
    for name in sorted(ROUTES):
        w = ROUTES[name]({'k': [v, (v,)], 'x': 1})['k'][0]
        if type(w) is not type(v) or not i.ion_equals(v, w):
            raise Violation('%s of %r is %r' % (name, v, w))
        if isinstance(v, i.core.Timestamp):
            from ..model import ts_from_py
            if ts_from_py(v) != ts_from_py(w) or v.fractional_seconds.as_tuple() != w.fractional_seconds.as_tuple() or v.fractional_precision != w.fractional_precision:
                raise Violation('%s of %r is %r' % (name, v, w))
        elif isinstance(v, i.core.Multimap):
            if list(v.items()) != list(w.items()) or len(v) != len(w):
                raise Violation('%s of %r is %r' % (name, list(v.items()), list(w.items())))
        elif tok(v) != tok(w):
            raise Violation('%s of %r is %r' % (name, v, w))
        rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('bare')


def verify(rec):
    def go(objs, nodes, stream, what):
        v, node = objs[0], nodes[0]
        if canon(from_py(v)) != canon(node):
            raise Violation('%s: %r is %r' % (what, node, from_py(v)))
        out = outputs(v, node)
        f0 = struct_form(v)
        for name in sorted(ROUTES):
            judge(v, ROUTES[name](v), node, '%s, %s' % (name, what), out if name in ('copy', 'deepcopy') else None)
            rec.trans()
        w = ROUTES['deepcopy']([v, {'k': (v, v)}])[1]['k'][1]
        judge(v, w, node, 'deepcopy in a container, %s' % what)
        if struct_form(v) != f0:
            raise Violation('%s: copying %r changed it' % (what, node))
        rec.trace()
        rec.n_states += 1
    return go


def shared(payload, rec):
    A.shared(payload, verify(rec), rec, streams=False)


def history(payload, rec):
    if not any(op == 'plain' for _, _, op, _ in payload[2]):
        A.mutated(payload, verify(rec), rec)


KINDS = {'ambient': V.ambient(routes), 'ambient1': V.ambient(convert), 'routes': routes, 'convert': convert, 'mutate': mutate, 'bare': bare, 'shared': shared, 'history': history}

UNKNOWN = [N('symbol', ('@', 'T', 3)), N('symbol', 'a', ('@', 'T', 3), ('?', 12)), N('int', 1, ('@', 'U', 1)), L(N('symbol', ('?', 15))), SX(N('symbol', ('@', 'T', 1), 0)), ST(('a', N('symbol', ('@', 'T', 3), 'b')), ('a', N('symbol', 0)))]


def gen(name):
    if name == 'unknown':
        return iter(UNKNOWN)
    if name == 'core':
        c = alpha.scalars()
        return (x for y in c if not (isinstance(y[2], (str, bytes)) and len(y[2]) > 1000) for x in (y, ann(y, 'a', 'b'), ST(('a', ann(y, 'c')), ('a', y))) if V.top_ok(x))
    if name == 'alike1':
        return (x for g in V.alike() for x in (N('list', tuple(g)), N('struct', tuple(('a', y) for y in g)), N('sexp', tuple(reversed(g)), 'k')))
    if name == 'mini':
        return (x for y in alpha.core() for x in (ann(y, 'a', 'b'), L(y)) if V.top_ok(x))
    if name == 'scalars':
        return (x for y in alpha.scalars() for x in (y, ann(y, 'a', '')) if V.top_ok(x))
    if name == 'dense1':
        return V.dense_scalars()
    if name == 'containers':
        return (v for n in (1, 2, 3, 4) for v in alpha.trees(n, [N('int', 1), N('symbol', 'a', 'b'), ST()], ('a', 'b')) if v[1] in CONTAINERS)
    return V.values(name)


def jobs(tier):
    q = tier == 'quick'
    out = [('routes', ('unknown', 1, 0, 1)), ('convert', ('unknown', 0, 0, 1)), ('bare', ('', 0, 0, 1))]
    out += [('routes', (g, f, i, 16)) for g, f in ((('core', 0), ('mini', 1), ('alike1', 0), ('trees4', 0), ('deep', 0), ('dense', 0)) if q else (('core', 1), ('alike1', 1), ('ctx', 1), ('pairs', 0), ('annots', 1), ('names', 0), ('trees4', 1), ('triples', 0), ('deep', 1), ('lengths', 0), ('dense', 1)))
            for i in range(16) if not (q and (g == 'trees4' and i % 4 or g == 'deep' and i % 5))]
    out += [('convert', (g, 0, i, 8)) for g in (('scalars', 'containers', 'dense1') if q else ('scalars', 'dense1', 'annots', 'containers', 'names', 'trees4')) for i in range(8)]
    out += [('shared', (tier, 0, i, 8)) for i in range(8)] + [('history', (tier, 0, i, 24)) for i in range(24)]
    out += [(kind, ('numbers', k, i, 8)) for kind in ('ambient', 'ambient1') for k in range(len(V.AMBIENT)) for i in range(8)]
    out += [('mutate', ('containers', 0 if q else 1, i, 16)) for i in range(16)]
    return out


def cases(kind, args):
    g, f, i, n = args
    if kind == 'bare':
        for k in range(80):
            yield k
        return
    if kind == 'ambient':
        for k, v in enumerate(V.numbers()):
            if k % n == i and k // n % 4 == f:
                yield (v, 0), f
        return
    if kind == 'ambient1':
        for k, x in enumerate(V.dense_scalars()):
            if k % n == i and x[1] in ('decimal', 'timestamp') and k // n % 9 == f:
                yield x, f
        return
    if kind == 'shared':
        for p in V.shard(A.g_shared(), i, n):
            yield p
        return
    if kind == 'history':
        # Quick: every change on its own; every third pair of changes.
        for k, p in enumerate(V.shard(A.g_mutated(g), i, n)):
            if g != 'quick' or len(p[2]) == 1 or k % 3 == 0:
                yield p
        return
    for v in V.shard(gen(g), i, n):
        if kind == 'routes':
            yield v, f
        elif kind == 'mutate':
            # Quick: trees of up to three nodes.
            if f or V_size(v) <= 3:
                yield v
        else:
            yield v


def V_size(v):
    from ..model import size
    return size(v)
