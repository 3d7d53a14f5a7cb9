# -*- coding: utf-8 -*-
"""C01: binary round trip."""
from .. import values as V, alpha, aliasing as A, tokens as T
from ..harness import Violation
from ..model import ion, to_py, from_py, canon, bag, Mismatch, N, ST, L, CONTAINERS

PID = 'C01'
RULE = ('Every value of the generators named in cases_by_kind (all boundary scalars in 17 contexts, all pairs of a %d-value '
        'core in 5 container shapes, triples, all annotation and field-name pairs, all lengths 0..299 and VarUInt '
        'boundaries, nesting to 257, dense runs of every scalar type and large tables and documents, all trees to size 4/5), crossed with import lists; symbol tokens bringing foreign IDs and positions in all pairs; contents of up to 4 MB and 33000 elements; all pairs of values that Python takes for equal or that are easily confused (numbers across types, one instant under different offsets, precisions and fractions, texts across types and annotations, empty values); the same object in several places; numbers under decimal contexts the caller set; values changed in place between uses; state = distinct abstract value, '
        'transition = one dump or load; non-trivial = distinct value under its options.' % len(alpha.core()))
ASSUMPTIONS = ['values are finite trees of the enumerated alphabets; strings are valid Unicode',
               'top-level values that Ion defines as system values are excluded']

TABLES = {
    'none': (),
    't1': (('t1', 1, ('a', 'b', 'zz', '+')),),
    't2': (('t1', 2, ('b', None, 'a', 'a')), ('\u00e9t', 3, ('a', 'name', 'z', 'x', ''))),
    'big': (('big', 1, tuple('u%d' % i for i in range(300)) + ('a',)),),
}


def imports(opt):
    i = ion()
    tabs = [i.sym.shared_symbol_table(n, v, list(t)) for n, v, t in TABLES[opt]]
    cat = i.sym.SymbolTableCatalog()
    for t in tabs:
        cat.register(t)
    return tabs or None, cat


_IMP = {}


def get_imports(opt):
    if opt not in _IMP:
        _IMP[opt] = imports(opt)
    return _IMP[opt]


def roundtrip(nodes, rec, opt, stream, dump_kw=None, text=False):
    i = ion()
    tabs, cat = get_imports(opt)
    objs = [to_py(n) for n in nodes]
    for o, n in zip(objs, nodes):
        if canon(from_py(o)) != canon(n):
            raise Violation('constructing the value changed it:\n %r\n %r' % (n, from_py(o)))
    kw = dict(dump_kw or {})
    if tabs:
        kw['imports'] = tabs
    obj = objs if stream else objs[0]
    data = i.dumps(obj, binary=not text, sequence_as_stream=stream, **kw)
    if not isinstance(data, str if text else bytes):
        raise Violation('dumps returned %r' % type(data))
    inputs = [data] if not text else [data, data.encode('utf-8')]
    for d in inputs:
        try:
            back = i.loads(d, catalog=cat, single_value=not stream)
        except Exception as e:
            raise Violation('output %r does not load: %s: %s' % (d[:300], type(e).__name__, e))
        backs = back if stream else [back]
        try:
            got = [from_py(o) for o in backs]
        except Mismatch as e:
            raise Violation('output %r: %s' % (d[:300], e))
        if [canon(g) for g in got] != [canon(n) for n in nodes]:
            raise Violation('output %r loads to\n  %r\nexpected\n  %r' % (d[:300], got, list(nodes)))
        rec.trans(1)
    again = i.dumps(obj, binary=not text, sequence_as_stream=stream, **kw)
    if again != data:
        raise Violation('second dump differs: %r then %r' % (data[:300], again[:300]))
    if [canon(from_py(o)) for o in objs] != [canon(n) for n in nodes]:
        raise Violation('dumping modified the value')
    redump = i.dumps(back if stream else backs[0], binary=not text, sequence_as_stream=stream, **kw)
    third = i.loads(redump, catalog=cat, single_value=not stream)
    if [canon(from_py(o)) for o in (third if stream else [third])] != [canon(n) for n in nodes]:
        raise Violation('dumping the loaded value gives %r, a different value' % (redump[:300],))
    rec.trans(4)
    rec.trace()
    rec.state((nodes, opt, stream))
    rec.outcome(nodes[0][1] if nodes else 'empty')


def one(payload, rec):
    node, opt = payload
    roundtrip((node,), rec, opt, False)


def stream(payload, rec):
    nodes, opt = payload
    roundtrip(nodes, rec, opt, True)


def tokens(payload, rec, dump_kw=None, text=False):
    """Symbols that bring along IDs and import positions of some other context."""
    a, b, o = payload
    i = ion()
    tabs, cat = get_imports(o if not text else 'none')
    node, obj = T.case(a, b)
    kw = dict(dump_kw or {})
    if tabs:
        kw['imports'] = tabs
    data = i.dumps(obj, binary=not text, **kw)
    try:
        got = from_py(i.loads(data, catalog=cat))
    except Exception as e:
        got = '%s: %s' % (type(e).__name__, e)
    if isinstance(got, str) or canon(got) != canon(node):
        raise Violation('tokens %r, %r: output %r loads to\n  %r\nexpected\n  %r' % (a, b, data[:300], got, node))
    rec.trans(2)
    rec.trace()
    rec.n_states += 1
    rec.outcome('tokens')


def verify(opt, rec, dump_kw=None, text=False):
    i = ion()
    tabs, cat = get_imports(opt)
    kw = dict(dump_kw or {})
    if tabs:
        kw['imports'] = tabs

    def go(objs, nodes, stream, what):
        data = i.dumps(objs if stream else objs[0], binary=not text, sequence_as_stream=stream, **kw)
        try:
            back = i.loads(data, catalog=cat, single_value=not stream)
            got = [from_py(o) for o in (back if stream else [back])]
        except Exception as e:
            raise Violation('%s: %r gives %r: %s: %s' % (what, nodes, data[:300], type(e).__name__, e))
        if [canon(g) for g in got] != [canon(n) for n in nodes]:
            raise Violation('%s: output %r loads to\n  %r\nexpected\n  %r' % (what, data[:300], got, nodes))
        if 'plain' not in what and [canon(from_py(o)) for o in objs] != [canon(n) for n in nodes]:
            raise Violation('%s: dumping modified %r' % (what, nodes))
        rec.trans(2)
        rec.trace()
        rec.n_states += 1
    return go


def shared(payload, rec):
    A.shared(payload[1], verify(payload[0], rec), rec)


def mutated(payload, rec):
    A.mutated(payload[1], verify(payload[0], rec), rec)


KINDS = {'ambient': V.ambient(one), 'value': one, 'stream': stream, 'tokens': tokens, 'shared': shared, 'mutated': mutated}


def jobs(tier):
    out = []
    gens = [('ctx', 16, ('none', 't1', 't2')), ('pairs', 16, ('none',)), ('triples', 16, ('none',)), ('annots', 8, ('none', 't2')), ('names', 8, ('none',)),
            ('lengths', 16, ('none',)), ('deep', 4, ('none',)), ('alike', 8, ('none',)), ('dense', 16, ('none',)), ('hugeb', 12, ('none',)), ('trees4', 16, ('t2',))]
    if tier == 'thorough':
        gens = [(g, 32, ('none', 't1', 't2', 'big') if g[:4] != 'huge' else o[:1]) for g, _, o in gens] + [('trees5', 64, ('none', 't2')), ('trees6', 128, ('none',)), ('lengths+', 64, ('t1',))]
    for name, n, opts in gens:
        for o in opts:
            out += [('value', (name, i, n, o)) for i in range(n)]
    out += [('stream', ('streams', i, 8, o)) for i in range(8) for o in (('none', 't2') if tier == 'quick' else ('none', 't1', 't2', 'big'))]
    out += [('tokens', (tier, i, 8, o)) for i in range(8) for o in (('t1',) if tier == 'quick' else tuple(TABLES))]
    out += [('shared', (tier, i, 8, o)) for i in range(8) for o in (('none',) if tier == 'quick' else tuple(TABLES))]
    out += [('mutated', (tier, i, 16, o)) for i in range(16) for o in (('none',) if tier == 'quick' else ('none', 't1', 't2'))]
    out += [('ambient', ('numbers', i, k, 'none')) for k in range(len(V.AMBIENT)) for i in range(8)]
    return out


def cases(kind, args):
    name, i, n, o = args
    if kind == 'ambient':
        for v in V.shard(V.numbers(), i, 8):
            yield (v, o), n
        return
    if kind in ('shared', 'mutated'):
        for p in V.shard(A.g_shared() if kind == 'shared' else A.g_mutated(name), i, n):
            yield o, p
        return
    if kind == 'tokens':
        for a, b in T.cases(o, name, i, n):
            yield a, b, o
        return
    if kind == 'stream':
        for s in V.shard(V.g_streams(), i, n):
            yield (s, o)
        return
    for v in V.shard(V.values(name), i, n):
        yield (v, o)
