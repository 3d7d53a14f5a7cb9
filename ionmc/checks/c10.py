# -*- coding: utf-8 -*-
"""C10: binary output is decoded by an independent, strict decoder; symbol tables are checked structurally."""
from io import BytesIO

from .. import values as V, alpha, refbin, aliasing as A, tokens as T
from ..harness import Violation
from ..model import ion, to_py, to_events, canon, N, L, SX, ST, ann, size
from ..refsym import SYSTEM, RefError, Unspecified
from .c01 import TABLES, get_imports

PID = 'C10'
RULE = ('Every value and stream of the generators, under every import list, written by dumps, dump and the event writer, and every pair of symbol tokens that bring along IDs and positions of other contexts; all pairs of values that Python takes for equal or that are easily confused (numbers across types, one instant under different offsets, precisions and fractions, texts across types and annotations, empty values); the same object in several places; numbers under decimal contexts the caller set; values changed in place between uses. The independent decoder (minimal lengths required) gives back the '
        'value; the symbol table must declare the imports and list each new symbol used, once, in the order of first use. State = '
        'distinct (value, imports, route), transition = one write.')
ASSUMPTIONS = ['values are finite trees of the enumerated alphabets', 'imported tables are known to the decoder']


def syms_of(node, out):
    """Symbols in the order in which a writer meets them: field name, annotations, value."""
    a, t, p = node
    out.extend(a)
    if p is not None:
        if t == 'symbol':
            out.append(p)
        elif t in ('list', 'sexp'):
            for c in p:
                syms_of(c, out)
        elif t == 'struct':
            for f, c in p:
                out.append(f)
                syms_of(c, out)
    return out


def check(data, nodes, opt, how):
    cat = {}
    for name, v, texts in TABLES[opt]:
        cat.setdefault(name, {})[v] = list(texts)
    try:
        raw = refbin.decode_raw(data, minimal=True)
        got = refbin.decode_stream(data, cat, minimal=True)
    except (RefError, Unspecified) as e:
        raise Violation('%s of %r gives %r, which is not valid minimal Ion: %s' % (how, nodes, data[:300], e))
    if [canon(g) for g in got] != [canon(n) for n in nodes]:
        raise Violation('%s of %r gives %r, which denotes %r' % (how, nodes, data[:300], got))
    if raw[:1] != ['IVM'] or 'IVM' in raw[1:]:
        raise Violation('%s of %r gives %r: version markers %r' % (how, nodes, data[:300], raw))
    raw = raw[1:]
    # The symbol table.
    known = set(SYSTEM) | set(t for _, _, texts in TABLES[opt] for t in texts if t is not None)
    new = []
    for s in [s for n in nodes for s in syms_of(n, [])]:
        if s != 0 and s not in known:
            known.add(s)
            new.append(s)
    tables = [r for r in raw if r[0][:1] == (('$', 3),) and r[1] == 'struct']
    if not new and (not TABLES[opt] or not nodes):
        if not tables:
            return      # an empty one, for the sake of system symbols, does no harm
    if len(tables) != 1 or raw[0] is not tables[0]:
        raise Violation('%s of %r gives %r with %d symbol tables' % (how, nodes, data[:300], len(tables)))
    f = dict(tables[0][2])
    if len(f) != len(tables[0][2]):
        raise Violation('%s of %r: symbol table %r' % (how, nodes, tables[0]))
    imps = [tuple((dict(i[2]).get(('$', k)) or (0, 0, 'none'))[2] for k in (4, 5, 8)) for i in f[('$', 6)][2]] if ('$', 6) in f else []
    if imps != [(n, v, len(t)) for n, v, t in TABLES[opt]]:
        raise Violation('%s of %r: declared imports %r' % (how, nodes, imps))
    local = [s[2] for s in f[('$', 7)][2]] if ('$', 7) in f else []
    if local != new and sorted(local) != sorted(new):
        raise Violation('%s of %r: local symbols %r, new symbols are %r' % (how, nodes, local, new))


def value(payload, rec):
    nodes, opt, stream = payload
    i = ion()
    tabs, _ = get_imports(opt)
    objs = [to_py(n) for n in nodes]
    obj = objs if stream else objs[0]
    kw = {'imports': tabs} if tabs else {}
    data = i.dumps(obj, binary=True, sequence_as_stream=stream, **kw)
    check(data, nodes, opt, 'dumps')
    fp = BytesIO()
    i.dump(obj, fp, binary=True, sequence_as_stream=stream, **kw)
    if fp.getvalue() != data:
        raise Violation('dump writes %r, dumps %r' % (fp.getvalue()[:300], data[:300]))
    rec.trans(2)
    rec.trace(1)
    rec.n_states += 1
    rec.outcome(nodes[0][1] if nodes else 'empty')


def write(w, events, ends=True):
    """Sends the events and a stream end to a writer; returns all bytes."""
    from amazon.ion.writer import WriteEventType
    i = ion()
    out = []
    for e in list(events) + ([i.core.ION_STREAM_END_EVENT] if ends else []):
        r = w.send(e)
        while r.type is WriteEventType.HAS_PENDING:
            out.append(r.data)
            r = w.send(None)
        out.append(r.data)
    return b''.join(out)


def events(payload, rec):
    nodes, opt = payload
    from amazon.ion.writer_binary import binary_writer
    tabs, _ = get_imports(opt)
    ev = [e for n in nodes for e in to_events(n)]
    data = write(binary_writer(tabs), ev)
    check(data, nodes, opt, 'binary_writer')
    # Texts instead of tokens, and the version marker given explicitly.
    ev2 = [e if e.ion_type is not ion().by_name['symbol'] or e.value is None or e.value.text is None else e.derive_value(e.value.text) for e in ev]
    data2 = write(binary_writer(tabs), [ion().core.ION_VERSION_MARKER_EVENT] + ev2)
    if data2 != data:
        raise Violation('with texts and a version marker %r, without %r' % (data2[:300], data[:300]))
    rec.trans(2)
    rec.trace()
    rec.n_states += 1
    rec.outcome('events')


def tokens(payload, rec):
    a, b, opt = payload
    tabs, _ = get_imports(opt)
    node, obj = T.case(a, b)
    data = ion().dumps(obj, binary=True, **({'imports': tabs} if tabs else {}))
    check(data, (node,), opt, 'dumps (tokens %r, %r)' % (a, b))
    rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('tokens')


def verify(opt, rec):
    tabs, _ = get_imports(opt)

    def go(objs, nodes, stream, what):
        data = ion().dumps(objs if stream else objs[0], binary=True, sequence_as_stream=stream, **({'imports': tabs} if tabs else {}))
        check(data, nodes, opt, 'dumps (%s)' % what)
        rec.trans()
        rec.trace()
        rec.n_states += 1
    return go


def shared(payload, rec):
    A.shared(payload[1], verify(payload[0], rec), rec)


def mutated(payload, rec):
    A.mutated(payload[1], verify(payload[0], rec), rec)


KINDS = {'ambient': V.ambient(value), 'value': value, 'events': events, 'tokens': tokens, 'shared': shared, 'mutated': mutated}


def jobs(tier):
    gens = [('ctx', 16, ('none', 't1', 't2')), ('pairs', 16, ('none',)), ('triples', 8, ('none',)), ('annots', 8, ('none', 'big')), ('names', 8, ('none', 't2', 'big')),
            ('lengths', 24, ('none',)), ('deep', 8, ('none',)), ('alike', 8, ('none',)), ('dense', 16, ('none',)), ('hugeb', 12, ('none',)), ('trees4', 8, ('t2',))]
    if tier == 'thorough':
        gens = [(g, 32, tuple(TABLES) if g[:4] != 'huge' else o[:1]) for g, _, o in gens] + [('trees5', 64, ('none', 't2')), ('trees6', 128, ('none',)), ('lengths+', 64, ('none', 't2'))]
    out = [('value', (g, i, n, o)) for g, n, opts in gens for o in opts for i in range(n)]
    opts = ('none', 't2') if tier == 'quick' else tuple(TABLES)
    out += [('value', ('streams', i, 8, o)) for i in range(8) for o in opts]
    out += [('events', (g, i, 8, o)) for g in (('ctx', 'streams') if tier == 'quick' else ('ctx', 'streams', 'pairs', 'annots', 'names', 'lengths', 'trees4')) for i in range(8) for o in opts]
    out += [('tokens', (tier, i, 8, o)) for i in range(8) for o in (('t1', 't2') if tier == 'quick' else tuple(TABLES))]
    out += [('shared', (tier, i, 8, o)) for i in range(8) for o in (('t2',) if tier == 'quick' else tuple(TABLES))]
    out += [('mutated', (tier, i, 16, o)) for i in range(16) for o in (('none',) if tier == 'quick' else tuple(TABLES))]
    out += [('ambient', ('numbers', i, k, 'none')) for k in range(len(V.AMBIENT)) for i in range(8)]
    return out


def cases(kind, args):
    name, i, n, o = args
    if kind == 'ambient':
        for v in V.shard(V.numbers(), i, 8):
            yield ((v,), o, False), n
        return
    if kind in ('shared', 'mutated'):
        for p in V.shard(A.g_shared() if kind == 'shared' else A.g_mutated(name), i, n):
            yield o, p
        return
    if kind == 'tokens':
        for a, b in T.cases(o, name, i, n):
            yield a, b, o
        return
    gen = V.g_streams() if name == 'streams' else ((v,) for v in V.values(name))
    for s in V.shard(gen, i, n):
        if kind == 'events' and not s:
            continue
        yield (s, o) if kind == 'events' else (s, o, name == 'streams')
