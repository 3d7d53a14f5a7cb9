# -*- coding: utf-8 -*-
"""C08: skipping. Every history of NEXT and SKIP decisions over every document of the bound, under several chunkings."""
from io import BytesIO, StringIO
from itertools import product

from ..harness import Violation
from ..model import N, L, SX, ST, F, ann
from .. import drive as D, alpha, huge, refbin
from ..values import shard
from . import c05, c06

PID = 'C08'
RULE = ('Every document of the families with every set of skip points (documents with up to the bound of them; at most two skips, in '
        'every combination, beyond) under each chunking (whole, unit by unit, every single cut, all partitions of short documents, '
        'blocking reader with several buffer sizes), in each reader mode; the event-tree model predicts which of the events of the '
        'unskipped run are reported. State = distinct (document, mode, skip history), transition = one run.')
ASSUMPTIONS = ['documents are valid', 'skipping at the top level is not defined; it only has to be refused']

FULL = {'quick': 6, 'thorough': 12}


def ends(events):
    """For each event, the index of the end of the innermost container that is open after it, or None."""
    out, stack, closes = [], [], {}
    for k, e in enumerate(events):
        if e[0] == 'CONTAINER_START':
            stack.append(k)
        elif e[0] == 'CONTAINER_END':
            closes[stack.pop()] = k
        out.append(stack[-1] if stack else None)
    return [None if o is None else closes[o] for o in out]


def histories(end, n, limit):
    """Every set of skip points, as tuples of event indices, with at most limit skips."""
    def rec(k, left):
        # k is the index of the last reported event.
        while k < n:
            if end[k] is not None and left:
                for rest in rec(end[k], left - 1):
                    yield (k,) + rest
            k += 1
        yield ()
    for h in rec(0, limit):
        if h:
            yield h


def predicted(events, end, skips):
    out, k, s = [], 0, set(skips)
    while k < len(events):
        out.append(events[k])
        k = end[k] if k in s else k + 1
    return out


def drive(mode, chunks, cat, events, end, skips, blocking=None, late=False):
    """Runs the reader, sending SKIP after the events whose index (in the unskipped run) is in skips."""
    b = D.B()
    r = D.make(mode, cat)
    if blocking is not None:
        src = chunks[0] if chunks else ('' if mode[0] == 's' else b'')
        r = b.blocking(r, StringIO(src) if mode[0] == 's' else BytesIO(src), blocking)
    got, keep, fin = [], [], []
    s = set(skips)
    k = 0       # index in the unskipped run of the next event
    c, n = 0, len(chunks)
    send = b.NEXT
    flushed = 0
    try:
        while True:
            e = r.send(send)
            send = b.NEXT
            et = e.event_type
            if et is b.INC or et is b.END:
                if blocking is not None:
                    fin.append('STREAM_END' if et is b.END else 'INCOMPLETE')
                    break
                if c < n:
                    send = b.data(chunks[c])
                    c += 1
                    continue
                fin.append('INCOMPLETE' if et is b.INC else 'STREAM_END')
                if et is b.INC and mode[0] != 'b' and flushed < 3:
                    flushed += 1
                    continue
                break
            if late:
                keep.append(e)
            else:
                got.append(D.norm(e))
            if k in s:
                send = b.SKIP
                k = end[k]
            else:
                k += 1
            if k > len(events) + 5:
                fin.append('too many events')
                break
        for e in keep:
            got.append(D.norm(e))
    except Exception as x:
        fin.append('%s: %s' % (type(x).__name__, x))
    return got, fin


def run(payload, rec):
    mode, doc, full, small = payload
    data = D.encode(mode, doc)
    n = len(data)
    c = c06.cat() if mode[1:] else None
    events, fin = D.drive(mode, [data], c)
    if 'error' in fin:
        raise Violation('mode %s: %r cannot be read: %r' % (mode, data, events))
    fin = list(fin)
    end = ends(events)
    points = sum(e is not None for e in end)
    rec.outcome('%s %d' % (mode, min(points, 20)))
    units = [data[i:i + 1] for i in range(n)]
    count = runs = 0
    for h in histories(end, len(events), 99 if points <= full else 2 if points <= 40 else 1):
        count += 1
        want = predicted(events, end, h)
        plans = [([data], None, False), (units, None, False), ([data], 1, False), ([data], 8196, True)]
        if n <= small:
            plans += [(D.cut(data, p), None, False) for p in D.partitions(n)]
        elif count <= (6 if full < 8 else 60):
            plans += [(D.cut(data, p), None, False) for p in D.cuts1(n)]
        for chunks, blocking, late in plans:
            runs += 1
            got = drive(mode, chunks, c, events, end, h, blocking, late)
            if got[0] != want or got[1] != (fin if blocking is None else ['STREAM_END']):
                raise Violation('mode %s: %r in chunks %r%s, skipping after events %r: reported\n%s\nexpected\n%s' % (
                    mode, data, chunks if len(chunks) < 40 else '...', '' if blocking is None else ' (blocking, %d)' % blocking, [(k, events[k]) for k in h], show(got), show((want, fin))))
    # At the top level there is nothing to skip.
    b = D.B()
    r = D.make(mode, c)
    e = r.send(b.NEXT)
    if e.event_type.is_stream_signal:
        e = r.send(b.data(data))
    if e.event_type is b.SCALAR and e.depth == 0:
        try:
            r.send(b.SKIP)
        except TypeError:
            pass
        else:
            raise Violation('mode %s: %r: skipping at the top level is accepted' % (mode, data))
    rec.n_states += count
    rec.trans(runs)
    rec.trace(runs)


def show(r):
    return '\n'.join('  %r' % (e,) for e in r[0]) + '\n  end: %s' % (r[1],)


def big(payload, rec):
    """A long document: skipping after the first, second, middle and last points, one after the other, in long chunks."""
    mode, doc, fine = payload
    data = D.encode(mode, doc)
    n = len(data)
    c = c06.cat() if mode[1:] else None
    events, fin = D.drive(mode, [data], c)
    if 'error' in fin:
        raise Violation('mode %s: %r cannot be read: %r' % (mode, data[:300], str(events)[:300]))
    fin = list(fin)
    end = ends(events)
    pts = [k for k, e in enumerate(end) if e is not None]
    if not pts:
        return
    some = sorted(set([pts[0], pts[min(1, len(pts) - 1)], pts[len(pts) // 2], pts[-1]]))
    if fine is None:
        some = sorted(set([pts[0], pts[-1]]))
    hs = [(k,) for k in some]
    hs += [(a, b) for a in some for b in some if end[a] <= b]
    plans = [([data], None, False), ([data], 8196, True), ([data], 100, False)]
    if fine is None:
        plans[2:] = [(D.cut(data, p), None, False) for p in huge.cuts(n, mode != 'b')] + [([data], 65536, True)]
    for k in () if fine is None else (1, 3, 64, 128, 129, 1000, 4096, 8192):
        if k < n < 3000 * k and (fine or n < 300 * k):
            plans.append(([data[j:j + k] for j in range(0, n, k)], None, False))
    for k in () if fine is None else c06.MARKS[::2] + (n - 1, n - 2, n - 3, n // 2):
        if 0 < k < n and (fine or k > n - 4 or k > 1000):
            plans.append(([data[:k], data[k:]], None, False))
    runs = 0
    for h in hs:
        want = predicted(events, end, h)
        for chunks, blocking, late in plans:
            runs += 1
            got = drive(mode, chunks, c, events, end, h, blocking, late)
            if got[0] != want or got[1] != (fin if blocking is None else ['STREAM_END']):
                raise Violation('mode %s: %r (%d units) in chunks of %r%s, skipping after events %r: reported\n%s\nexpected\n%s' % (
                    mode, data[:300], n, [len(x) for x in chunks[:6]], '' if blocking is None else ' (blocking, %d)' % blocking, h, show(got)[-1500:], show((want, fin))[-1500:]))
    rec.n_states += len(hs)
    rec.trans(runs)
    rec.trace(runs)
    rec.outcome('big %s %d' % (mode, len(some)))


KINDS = {'doc': run, 'big': big}

X = ['1', 'a', "'a]'", '"]"', '"\\"}"', '+inf', 'null.list', "'''}''' '''])'''", '/*]})*/ 1', '//]})\n1', '{{"}}"}}', '{{fX19}}', "{{''']}'''}}", '[]', '()', '{}', 'b::"("', '2000T', '1 /*]*/', '-1.5d3', "''", '"\\u005d\\\n"', '$4', 'b::[1]', "(a]')".replace("]'", '')]
SHAPES1 = ['[%s]', '(%s)', '{a:%s}', '[%s,2]', '(%s 2)', '{a:%s,b:2}', 'c::[%s] d', '[[%s]]', '([%s] (%s) 3) 4', '{a:{b:%s},c:[%s]} /*x*/ e', '[%s] [%s]', '[1,[%s],{a:%s},5]5', '{"a":%s, \'b\':%s ,}', '((%s)%s)', '[a::{b:c::(%s)},%s]']
SHAPES2 = ['[%s,%s]', '(%s %s)', '{a:%s,b:%s}', '[[%s],%s]', '({a:%s} %s)', '{a:[%s],b:(%s)}x', '[(%s)] {a:%s}', 'z::[[%s]] [%s]\'q\'']


def g_one():
    for s in SHAPES1:
        for x in X:
            yield s.replace('%s', x)


def g_two():
    for s in SHAPES2:
        for x, y in product(X, X):
            yield s % (x, y)


def text_trees(n):
    """Every container tree with n nodes, compactly spelt."""
    def t(n):
        if n == 1:
            yield '1'
            yield 'a'
            yield '"]"'
            yield '[]'
            yield '{}'
            return
        for kids in f(n - 1):
            yield '[' + ','.join(kids) + ']'
            yield '(' + ' '.join(kids) + ')'
            yield '{' + ','.join('f%d:' % (i % 2) + k for i, k in enumerate(kids)) + '}'

    def f(n):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for a in t(k):
                for b in f(n - k):
                    yield (a,) + b
    for v in t(n):
        yield v + ' 2'


def g_trees(n):
    def g():
        for k in range(2, n + 1):
            for v in text_trees(k):
                yield v
    return g


LEAVES = [N('int', 1), N('string', 'x' * 14), N('blob', b'\xe0\x01\x00\xea'), N('symbol', 'name', 'version'), L()]


def g_bin(n):
    def g():
        st = refbin.Symtab()
        ids = lambda s: st.ids.get(s, 4) if s != 0 else 0
        tail = b'\x11'
        for k in range(2, n + 1):
            for v in alpha.trees(k, LEAVES, ('name', 'version')):
                yield refbin.IVM + refbin.encode(v, ids) + tail
                if k < 4:
                    yield refbin.IVM + refbin.encode(ann(v, 'name'), ids) + refbin.encode(v, ids)
    return g


def g_binc(m=8):
    """Containers with padding, long lengths, annotated and nested ones, sorted structs."""
    parts = [b'\x11', b'\x21\x05', b'\x00', b'\x02\x11\x20', b'\x8e\x8e' + b'a' * 14, b'\xb0', b'\xb2\x11\x0f', b'\xc1\x20', b'\xd2\x84\x11', b'\xd1\x82\x84\x11', b'\xe3\x81\x84\x11', b'\xe5\x81\x84\xb2\x11\x10', b'\xbe\x81\x11', b'\xde\x83\x84\xb1\x11', b'\xe6\x81\x84\xbe\x82\x11\x10', b'\xbf', b'\xd3\x84\xb1\x11', b'\xae\x90' + b'\xb1' * 16]

    def wrap(t, body):
        if len(body) < 14:
            return bytes([t << 4 | len(body)]) + body
        return bytes([t << 4 | 14, 0x80 | len(body)]) + body if len(body) < 128 else bytes([t << 4 | 14, len(body) >> 7, 0x80 | len(body) & 127]) + body
    for t in (11, 12):
        for p, q, r in product(parts, parts, parts[:m]):
            yield refbin.IVM + wrap(t, p + q + r) + b'\x10'
            yield refbin.IVM + wrap(t, p + wrap(11, q) + r) + r
    for p, q in product(parts, parts):
        if len(b'\x84' + p) == 1:
            continue
        yield refbin.IVM + wrap(13, b'\x84' + p + b'\x85' + q) + b'\x10'
        yield refbin.IVM + wrap(13, b'\x84' + wrap(12, p + q) + b'\x80\x01x') + b'\x10'
        if m > 4:
            yield refbin.IVM + wrap(11, p * 9 + q * 9) + q
    for p in parts:
        yield refbin.IVM + wrap(11, p * 9) + p


def g_long():
    for d in c05.CORPUS:
        if '$10' in d:
            continue
        yield '[' + d + ']' if not d.startswith('$ion_') else d
        yield 'x::{f:(' + d.replace('//', '/**/').replace(', ', ' ') + ')}' if '[' not in d and '{' not in d else d
    for d in c06.LONG:
        yield d
    yield '[' * 30 + '1' + ']' * 30 + ' 2'
    yield '{a:' * 20 + '[]' + '}' * 20
    yield '(a (b (c (d) e) f) g)'


def g_tables():
    for d in c06.TABLES_T:
        yield d
        yield d + ' [$10,{a:$11}]' if 'symbols:["x","y"]' in d else d
    yield '$ion_symbol_table::{symbols:["x",[["n"]],(a (b)),{a:1},"y"],open:[1,[2]],imports:[[1],{name:"t",version:1,max_id:1,more:[x]}]} [$11,(x $10)] {a:$15}'


def g_tables_b():
    for d in c06.tables_bin():
        yield d + b'\xb4\x71\x0a\x71\x0a\x10'


G = {'one': (g_one, ('s', 'tm')), 'two': (g_two, ('s',)), 'trees5': (g_trees(5), ('s',)), 'trees4': (g_trees(4), ('s',)), 'trees3': (g_trees(3), ('tm',)), 'bin4': (g_bin(4), ('b', 'bm')), 'bin5': (g_bin(5), ('b',)), 'binc': (lambda: g_binc(2), ('b',)), 'binc+': (g_binc, ('b',)), 'long': (g_long, ('s', 't', 'sm')),
     'tables': (g_tables, ('sm', 'tm')), 'tables_b': (g_tables_b, ('bm',))}


def g_big_t(sizes):
    for n in sizes:
        for j, d in enumerate(c05.long_tokens(n)):
            if d.endswith('::') or '\n' not in d and '//' in d:
                continue
            for s in ('[%s ,{a:1}] 2', '({a:[%s ]} b) 3', 'x::{f:(1 %s ) ,g:2}', '[0,(%s ),[%s ]]'):
                yield s.replace('%s', d)


def g_big_b(sizes):
    from . import c04
    for n in sizes:
        for j, d in enumerate(c04.large(n)):
            if len(d) > 40000 or not d:
                continue
            w = [refbin.td(11, d + b'\x11'), refbin.td(13, b'\x84' + refbin.td(12, b'\x10' + d) + b'\x85\x10'), refbin.td(14, b'\x81\x84' + refbin.td(11, refbin.td(11, d) + d))][j % 3]
            yield refbin.IVM + w + b'\x21\x07'


def g_many_t():
    for d in c06.g_many_t():
        yield d + ' 1'


BG = {'big_t': (lambda: g_big_t(c06.BIG), ('s', 't')), 'bigger_t': (lambda: g_big_t(c06.BIGGER), ('t',)), 'big_b': (lambda: g_big_b(c06.BIG), ('b', 'bm')), 'bigger_b': (lambda: g_big_b(c06.BIGGER), ('b',)),
      'many_t': (g_many_t, ('s',)), 'many_b': (c06.g_many_b, ('b',))}
BQ = {'big_t': 47, 'bigger_t': 97, 'big_b': 9, 'bigger_b': 17, 'many_t': 11, 'many_b': 11}     # quick: every n-th document


def valid(g, d):
    try:
        if isinstance(d, str):
            from .. import reftext
            reftext.parse_stream(d, c06.CAT if g == 'tables' else None) if g == 'tables' else reftext.parse_raw(d)
        elif g == 'tables_b':
            refbin.decode_stream(d, c06.CAT)
        else:
            refbin.decode_raw(d)
        return True
    except Exception:
        return False


def jobs(tier):
    names = {'one': 8, 'two': 24, 'trees4': 8, 'trees3': 8, 'bin4': 24, 'binc': 24, 'long': 8, 'tables': 4, 'tables_b': 4}
    if tier == 'thorough':
        names.update({'binc+': 64}, trees5=64, bin5=128)
    return [('doc', (g, m, i, n, tier)) for g, n in names.items() for m in G[g][1] for i in range(n)] + [
        ('big', (g, m, i, 8 if tier == 'quick' else 64, tier)) for g in BG for m in BG[g][1] for i in range(8 if tier == 'quick' else 64)] + [
        ('big', ('huge', m, i, 8, tier)) for m in ('s', 'b', 'bm') for i in range(8)]


def cases(kind, args):
    g, m, i, n, tier = args
    if g == 'huge':
        for d in shard(c06.huge_docs(m, tier), i, n):
            yield (m, d, None)
        return
    if kind == 'big':
        step = BQ[g] if tier == 'quick' else 1
        for d in shard(shard(BG[g][0](), BG[g][1].index(m) if tier == 'quick' else 0, step), i, n):
            if valid('tables_b' if m == 'bm' else 'long', d):
                yield (m, d, 'bigger' not in g)
        return
    for d in shard(G[g][0](), i, n):
        if g in ('one', 'long', 'tables', 'tables_b', 'two', 'binc', 'binc+') and not valid(g, d):
            continue
        yield (m, d, FULL[tier], 8 if tier == 'quick' else 11)
