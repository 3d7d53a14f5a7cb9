# -*- coding: utf-8 -*-
"""C24: the reader protocol. Every history of requests, the refused ones included, against an automaton."""
from io import BytesIO, StringIO

from ..harness import Violation
from ..model import N, L, SX, ST, F, ann, CONTAINERS
from .. import drive as D, refbin, reftext

PID = 'C24'
RULE = ('For every document (all forests of values up to the size bound over typed nulls, annotated values, empty and filled containers, version markers and symbol tables between them, and larger ones), reader mode '
        '(text from str or bytes, binary, raw or managed) and chunk plan, a depth-first exploration executes every history of requests the protocol automaton allows (next, skip, data, flush where the input may end), '
        'and in every state of the automaton each request it refuses (data not asked for, empty data, next or skip when data is needed, skip at the top level, not starting with next). The automaton gives the answer: the next event of the document, '
        'the end of the container when skipping, or a signal, which may leave events unreported only while input remains. After every kind of malformed document no further request is answered with an event. The blocking reader is run over every history with every buffer size and files that return less than asked for. State = distinct (document, mode, plan, '
        'automaton state), transition = request sent.')
ASSUMPTIONS = ['documents are valid', 'after a flush in the middle of a value the document is not continued']

BAD = ('bad-data', 'bad-empty', 'bad-next', 'bad-skip')


def want_events(items, mode):
    """-> [(kind, type, payload, field, annotations, depth)] with texts for symbols."""
    out = []

    def go(node, field, depth):
        a, t, p = node
        if p is not None and t in CONTAINERS:
            out.append(('CONTAINER_START', t, None, field, a, depth))
            for c in p:
                if t == 'struct':
                    go(c[1], c[0], depth + 1)
                else:
                    go(c, None, depth + 1)
            out.append(('CONTAINER_END', t, None, None, (), depth))
        else:
            out.append(('SCALAR', t, p, field, a, depth))
    for n in items:
        if n == 'IVM':
            if mode[1:] != 'm':
                out.append(('VERSION_MARKER', None, (1, 0), None, (), 0))
        elif n == LST:
            if mode[1:] != 'm':
                go(n, None, 0)
        else:
            go(n, None, 0)
    return out


LST = ST(('symbols', L(N('string', 'n1'), N('string', 'a'))))
LST = ann(LST, '$ion_symbol_table')


def ends_of(events):
    """For each event, the index of the end of the innermost container open after it, or None."""
    out, stack, closes = [], [], {}
    for k, e in enumerate(events):
        if e[0] == 'CONTAINER_START':
            stack.append(k)
        elif e[0] == 'CONTAINER_END':
            closes[stack.pop()] = k
        out.append(stack[-1] if stack else None)
    return [None if o is None else closes[o] for o in out]


class Doc(object):
    def __init__(self, items, mode, style=0):
        self.mode = mode
        self.sids = None
        if mode[0] == 'b':
            segs = [[]]
            for n in items:
                if n == 'IVM':
                    segs.append([])
                elif n != LST:
                    segs[-1].append(n)
            if mode[1:] == 'm':
                self.data = b''.join(refbin.encode_stream(s) for s in segs)
                self.events = want_events([n for n in items if n != LST], mode)
            else:
                st = refbin.Symtab()
                self.data = b''.join(refbin.IVM + b''.join(refbin.encode(n, st) for n in s) for s in segs)
                self.sids = st.ids
                self.events = want_events(['IVM'] + [n for n in items if n != LST], mode)
            self.stops = set()
        else:
            text, self.stops = '', set()
            for n in items:
                text += '$ion_1_0' if n == 'IVM' else reftext.render(n, style)
                if not style:
                    self.stops.add(len(text))
                text += ' '
            self.stops.add(len(text))
            # (Texts are ASCII: positions are the same in bytes.)
            self.data = D.encode(mode, text)
            self.events = want_events(items, mode)
        self.ends = ends_of(self.events)

    def sym(self, s):
        return s if self.sids is None else self.sids[s]

    def same(self, e, want):
        b = D.B()
        kind, t, p, field, annots, depth = want
        if e.event_type.name != kind or e.depth != depth:
            return False
        if kind == 'VERSION_MARKER':
            return e.value == p
        if e.ion_type is None or b.name_of[e.ion_type] != t:
            return False
        if kind == 'CONTAINER_END':
            return True
        v = e.value
        if t == 'symbol' and p is not None:
            if v is None or self.told(v) != self.sym(p):
                return False
        elif D.norm_value(t, v) != p:
            return False
        f = e.field_name
        if (f is None) != (field is None) or (f is not None and self.told(f) != self.sym(field)):
            return False
        return [self.told(a) for a in e.annotations] == [self.sym(a) for a in annots]

    def told(self, s):
        if isinstance(s, str):
            return str(s)
        return s.sid if self.sids is not None else s.text


def run_history(doc, chunks, choices):
    """Runs one history. -> (options taken at each point [(options, state)], requests sent). Raises Violation."""
    b = D.B()
    r = D.make(doc.mode)
    text = doc.mode[0] != 'b'
    k = 0               # the next event
    c = at = 0          # chunks and units given
    n = len(chunks)
    points = []
    sent = 0
    last = None         # what was answered: None at the start, 'event', 'INCOMPLETE', 'STREAM_END'
    skipping = False
    flushed = False
    log = []

    def bad(msg):
        raise Violation('mode %s, %r, requests %r: %s' % (doc.mode, chunks, log, msg))
    while True:
        # What may be asked for.
        if last is None:
            opts = ['next']
            refused = ['bad-data', 'bad-empty', 'bad-skip']
        elif last == 'event':
            opts = ['next']
            refused = ['bad-data', 'bad-empty']
            if doc.ends[k - 1] is not None:
                opts.append('skip')
            else:
                refused.append('bad-skip')
        else:
            opts = ['data'] if c < n else []
            refused = ['bad-empty', 'bad-skip']
            if text and last == 'INCOMPLETE':
                if not flushed and not skipping and at in doc.stops:
                    opts.append('flush')
            else:
                refused.append('bad-next')
        if not opts:
            if last == 'INCOMPLETE' or k < len(doc.events):
                bad('everything is given, the reader says %s, and %d of %d events are reported' % (last, k, len(doc.events)))
        state = (k, c, last, skipping, flushed)
        i = len(points)
        opts = opts + refused
        points.append((opts, state))
        pick = opts[choices[i]] if i < len(choices) else opts[0]
        if i >= len(choices) and pick in BAD:
            return points, sent          # the end of the document
        log.append(pick)
        sent += 1
        if pick in BAD:
            req = b.NEXT if pick == 'bad-next' else b.SKIP if pick == 'bad-skip' else b.data(doc.data[:1]) if pick == 'bad-data' else b.data(doc.data[:0])
            try:
                e = r.send(req)
            except (TypeError, ValueError):
                pass
            except Exception as x:
                bad('refused with %s: %s' % (type(x).__name__, x))
            else:
                bad('not refused, but answered with %r' % (e,))
            try:
                e = r.send(b.NEXT)
            except StopIteration:
                pass
            except Exception:
                pass
            else:
                bad('and then answers a further request with %r' % (e,))
            return points, sent
        if pick == 'data':
            req = b.data(chunks[c])
            at += len(chunks[c])
            c += 1
            flushed = False
        elif pick == 'skip':
            req = b.SKIP
            k = doc.ends[k - 1]
            skipping = True
        else:
            req = b.NEXT
            flushed = flushed or pick == 'flush'
        try:
            e = r.send(req)
        except Exception as x:
            bad('raises %s: %s' % (type(x).__name__, x))
        et = e.event_type
        if et.is_stream_signal:
            last = et.name
            if last == 'STREAM_END' and (skipping or (k and doc.ends[k - 1] is not None)):
                bad('stream end inside a container')
            if e.depth or e.value is not None or e.annotations or e.field_name is not None:
                bad('the signal is %r' % (e,))
            if pick == 'flush' and last != 'STREAM_END' and at in doc.stops:
                bad('a flush where the input may end is answered with %s' % last)
        else:
            if last is None:
                bad('an event before any data: %r' % (e,))
            if k >= len(doc.events):
                bad('reports %r after the end' % (e,))
            if not doc.same(e, doc.events[k]):
                bad('reports %r, must be %r' % (D.norm(e), doc.events[k]))
            k += 1
            skipping = False
            last = 'event'


def explore(payload, rec):
    items, mode, cuts, style, limit = payload
    doc = Doc(items, mode, style)
    n = len(doc.data)
    plans = []
    if cuts == 'all':
        plans = [[]] + list(D.cuts1(n)) + [list(range(1, n))]
    elif cuts == 'stops':
        plans = [[], sorted(p for p in doc.stops if p < n)] + [[p] for p in sorted(doc.stops) if p < n]
    elif cuts == 'units':
        plans = [list(range(1, n))]
    else:
        plans = [[], sorted(set(p for p in cuts if 0 < p < n))]
    for cut in plans:
        chunks = D.cut(doc.data, cut) if n else []
        probed = set()
        stack = [[]]
        done = 0
        while stack and done < limit:
            choices = stack.pop()
            points, sent = run_history(doc, chunks, choices)
            done += 1
            rec.trans(sent)
            for i in range(len(choices), len(points)):
                opts, state = points[i]
                for j in range(1, len(opts)):
                    if opts[j] in BAD:
                        if (state, opts[j]) in probed:
                            continue
                        probed.add((state, opts[j]))
                    stack.append(choices + [0] * (i - len(choices)) + [j])
                # At the end of the document every request is refused.
                if opts[0] in BAD and (state, opts[0]) not in probed:
                    probed.add((state, opts[0]))
                    stack.append(choices + [0] * (i - len(choices)) + [0])
        rec.trace(done)
        rec.n_states += len(set(s for s, _ in probed))
    rec.outcome('%s %s' % (mode, 'whole' if not cuts else cuts if isinstance(cuts, str) else 'cut'))


class Short(object):
    """A file whose reads return less than asked for."""

    def __init__(self, data, sizes):
        self.data, self.sizes, self.k, self.at = data, sizes, 0, 0

    def read(self, n=-1):
        k = self.sizes[self.k % len(self.sizes)]
        self.k += 1
        k = min(n, k) if n >= 0 else k
        d = self.data[self.at:self.at + k]
        self.at += len(d)
        return d


def blocking_history(doc, size, sizes, skips):
    b = D.B()
    src = Short(doc.data, sizes) if sizes else StringIO(doc.data) if doc.mode[0] == 's' else BytesIO(doc.data)
    r = b.blocking(D.make(doc.mode), src, size) if size else b.blocking(D.make(doc.mode), src)
    k, send = 0, b.NEXT
    seen = []
    what = 'mode %s, %r, buffer size %r, reads of %r, skipping after %r' % (doc.mode, doc.data, size, sizes, skips)
    while True:
        try:
            e = r.send(send)
        except Exception as x:
            raise Violation('%s: after %d events: %s: %s' % (what, k, type(x).__name__, x))
        if e.event_type.is_stream_signal:
            if k < len(doc.events) or e.event_type is not b.END:
                raise Violation('%s: %s after %d of %d events' % (what, e.event_type.name, k, len(doc.events)))
            break
        if k >= len(doc.events) or not doc.same(e, doc.events[k]):
            raise Violation('%s: event %d is %r, must be %r' % (what, k, D.norm(e), doc.events[k] if k < len(doc.events) else 'the end'))
        seen.append(k)
        if k in skips:
            send = b.SKIP
            k = doc.ends[k]
        else:
            send = b.NEXT
            k += 1
    try:
        e = r.send(b.NEXT)
    except StopIteration:
        pass
    else:
        raise Violation('%s: after the end, %r' % (what, e))
    return len(seen)


def skip_sets(ends, limit):
    def rec(k, left):
        while k < len(ends):
            if ends[k] is not None and left:
                for rest in rec(ends[k], left - 1):
                    yield (k,) + rest
            k += 1
        yield ()
    return rec(0, limit)


def blocking(payload, rec):
    items, mode, limit = payload
    doc = Doc(items, mode)
    n = len(doc.data)
    runs = 0
    for h in skip_sets(doc.ends, limit):
        for size in list(range(1, min(n, 9) + 1)) + [n, n + 1, None]:
            rec.trans(blocking_history(doc, size, None, h))
            runs += 1
        for sizes in ((1,), (1, 2), (3, 1, 1), (2, 5)):
            rec.trans(blocking_history(doc, None, sizes, h))
            runs += 1
    # A skip where there is nothing to skip, and first of all, is refused.
    b = D.B()
    for k in range(-1, len(doc.events)):
        if k > 200 and k % 50:
            continue
        if k >= 0 and doc.ends[k] is not None:
            continue
        r = b.blocking(D.make(doc.mode), StringIO(doc.data) if mode[0] == 's' else BytesIO(doc.data))
        for _ in range(k + 1):
            r.send(b.NEXT)
        try:
            e = r.send(b.SKIP)
        except (TypeError, ValueError):
            pass
        else:
            raise Violation('mode %s, %r: skipping after event %d is answered with %r' % (mode, doc.data, k, e))
    rec.trace(runs)
    rec.n_states += runs
    rec.outcome('blocking %s' % mode)


BROKEN_T = ['[1,}', '(]', '{a}', '{a:1', '{1:2}', '"a', "'a", "'''a", '{{a', '{{"a"', '/*', '1x', '0x', '1.2.3', '2000-13-01', '2000T00', '"\\q"', '"\n"', '[1,,2]', '{a:1,,}', 'a::', 'a::]', 'null.foo', '1 ] 2', '1 ) 2', '1 } 2', '[a::]',
            '{{YQ}}', '{{"\\u0041"}}', '$ion_2_0 ', '+', '[+]', '1__0', '{a:b::}', '_:']
BROKEN_B = [b'\x1f\xf1', b'\xf0', b'\x12', b'\x30', b'\xd1\x84', b'\xb2\x22\x01', b'\xe2\x81\x84', b'\xe3\x81\x84\x00', b'\x83a\xff\xfe', b'\x62\x80\x80', b'\x43\0\0\0', b'\xb1\xf1', b'\xd2\x84\xf1', b'\xe4\x81\x84\xe3\x81\x84\x20', b'\x28' + b'\x01' * 3]


def broken(payload, rec):
    """A reader that has failed does not answer again."""
    doc, mode, cut, req = payload
    b = D.B()
    data = D.encode(mode, doc)
    r = D.make(mode)
    one = b.data(b'\xe0\x01\x00\xea\x21\x01' if mode[0] == 'b' else D.encode(mode, ' 1 '))
    chunks = [data[k:k + 1] for k in range(len(data))] if cut else [data]
    send, k, failed = b.NEXT, 0, None
    flushed = False
    while failed is None:
        try:
            e = r.send(send)
        except Exception as x:
            failed = x
            break
        rec.trans()
        send = b.NEXT
        if e.event_type.is_stream_signal:
            if k < len(chunks):
                send = b.data(chunks[k])
                k += 1
            elif mode[0] != 'b' and e.event_type is b.INC and not flushed:
                flushed = True
            else:
                # (It waits for more, or the value is only refused when it is looked at.)
                break
    if failed is not None:
        for what in req:
            try:
                e = r.send(b.NEXT if what == 'next' else one if what == 'data' else b.SKIP)
            except Exception:
                continue
            raise Violation('mode %s, %r: after %s: %s it answers %s with %r' % (mode, doc, type(failed).__name__, failed, what, e))
    rec.trace()
    rec.n_states += 1
    rec.outcome('failed' if failed is not None else 'waits')


KINDS = {'explore': explore, 'blocking': blocking, 'broken': broken}
MODES = ('s', 't', 'b', 'sm', 'tm', 'bm')
LEAVES = [N('int', 12), N('string', 'b c'), N('symbol', 'a'), N('list'), N('bool', True, 'x', 'y'), N('decimal', (1, 25, -1)), N('struct', None, 'x'), N('blob', b'ab'), F(1.5),
          N('timestamp', ('D', 2000, 1, 2, None, None, None, None, None)), N('clob', b'"}}'), N('null')]


def trees(n, leaves, conts):
    """Every forest of n values."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in tree(k, leaves, conts):
            for rest in trees(n - k, leaves, conts):
                yield (first,) + rest


def tree(n, leaves, conts):
    if n == 1:
        for x in leaves:
            yield x
    for c in conts:
        for inner in trees(n - 1, leaves, conts):
            yield build(c, inner)


def build(c, inner):
    if c == 'list':
        return L(*inner)
    if c == 'sexp':
        return SX(*inner)
    if c == 'struct':
        return ST(*[(('f', 'g', 'f')[k % 3], x) for k, x in enumerate(inner)])
    return ann(ST(*[('name', x) for x in inner]), 'x') if c == 'astruct' else ann(L(*inner), 'y', 'x')


CONTS = ('list', 'sexp', 'struct', 'astruct', 'alist')


def big():
    x = N('int', 1)
    for k in range(6):
        x = build(CONTS[k % 5], (N('string', 'q'), x, N('symbol', 'a')))
    yield (x, N('int', 2))
    yield (L(*[N('int', k) for k in range(20)]), ST(*[('f', SX(N('symbol', 'a')))] * 5), N('int', 3))
    yield (ST(('f', L(L(L()), ST())), ('g', SX(SX(), SX()))), 'IVM', L(ST(('f', N('int', 5)))), LST, N('symbol', 'n1'), L(N('symbol', 'a')))
    yield (N('string', '"]})'), L(N('string', ']"'), N('clob', b'}}'), N('symbol', "']")), SX(N('string', ')'), N('symbol', ')')), ST(("'}", N('string', '}')), ('}', L())))
    yield (N('string', 'x' * 200), L(N('blob', bytes(range(200))), N('string', 'y' * 130)), N('int', 2 ** 200), N('int', -1, *['long annotation %d' % k for k in range(9)]))
    y = N('symbol', 'a')
    for k in range(40):
        y = build(CONTS[k % 5], (y,))
    yield (y, y)


def huge():
    for n in (64, 65, 128, 256, 257, 1000, 1025, 2100):
        yield (L(*[LEAVES[k % 3 if n > 300 else k % 12] for k in range(n)]), N('int', 2))
        yield tuple(N('int', k) if k % 5 else L(N('symbol', 'a')) for k in range(n))
        yield (ST(*[('fg'[k % 2], N('int', k)) for k in range(n)]), L(), N('int', 1))
        yield (SX(*[(L() if k % 2 else ST(('f', N('int', k)))) for k in range(n)]),)
    for n in (4095, 8191, 8192, 8193, 16384, 33000):
        yield (N('string', 'x\u20acy' * (n // 3)), L(N('blob', b'q]}' * (n // 3)), N('symbol', 's' * n)), N('int', 1))
        yield (L(L(N('string', ']' * n), N('int', 1)), N('int', 2)), N('int', 3))
    for d in (64, 65, 100, 128, 129, 200):
        y = N('symbol', 'a')
        for k in range(d):
            y = build(CONTS[k % 5], (y,) if k % 7 else (y, N('int', k)))
        yield (y, N('int', 1))
        z = L()
        for k in range(d):
            z = L(L(), z, L())
        yield (z, z)


def adjacent(items):
    return any(a[1] == b[1] == 'string' for a, b in zip(items, items[1:]))


def gen(name, tier):
    q = tier == 'quick'
    few = LEAVES[:5]
    if name == 'small':
        for n in (0, 1, 2):
            for k, items in enumerate(trees(n, LEAVES if n < 2 else few, CONTS)):
                for j, m in enumerate(MODES):
                    if n < 2 or not q or (k + j) % 3 == 0:
                        yield 'explore', (items, m, 'all', 0, 5000)
                    else:
                        yield 'explore', (items, m, 'stops', 0, 5000)
                    if m[0] != 'b' and not adjacent(items):
                        yield 'explore', (items, m, 'units', 2, 5000)
        for k, items in enumerate(trees(3, LEAVES[:3], CONTS[:4])):
            for j, m in enumerate(MODES):
                if not q or (k + j) % 18 == 0:
                    yield 'explore', (items, m, 'all', 0, 5000)
                elif (k + j) % 6 == 0:
                    yield 'explore', (items, m, 'stops', 0, 5000)
        for k, items in enumerate(trees(4, LEAVES[:2], CONTS[:3])):
            for j, m in enumerate(MODES):
                if not q or (k + j) % 6 == 0:
                    yield 'explore', (items, m, (3 + k % 7, 9 + k % 5), 0, 5000)
    elif name == 'system':
        for n in (1, 2, 3):
            for k, items in enumerate(trees(n, [N('int', 12), N('symbol', 'a', 'x'), 'IVM', LST], ())):
                items = items + (L(N('symbol', 'a')),)
                for j, m in enumerate(MODES):
                    if n < 2 or not q or (k + j) % 6 == 0:
                        yield 'explore', (items, m, 'all' if n < (2 if q else 3) else 'stops', 0, 400 if q else 5000)
                    elif n == 2:
                        yield 'explore', (items, m, 'units', 0, 400)
    elif name == 'big':
        for items in big():
            for m in MODES:
                for style in (0, 1, 2) if m[0] != 'b' else (0,):
                    for cuts in ('stops', 'units'):
                        yield 'explore', (items, m, cuts, style, 60 if q else 3000)
    elif name == 'huge':
        for k, items in enumerate(huge()):
            for j, m in enumerate(MODES):
                if not q or (k + j) % 2 == 0:
                    yield 'explore', (items, m, (14, 100, 5000, 8192, 65536, 65537), 0, 4 if q else 12)
    elif name == 'broken':
        for before in ('', '1 ', '[', '{f:[a,'):
            for d in BROKEN_T:
                for m in MODES:
                    if m[0] != 'b':
                        for cut in (0, 1):
                            for req in (('next', 'data'), ('data', 'next', 'skip'), ('skip', 'next', 'data')):
                                yield 'broken', (before + d + ' ', m, cut, req)
        for before in (b'', b'\x20', b'\xb4', b'\xd8\x84\xb6'):
            for d in BROKEN_B:
                for m in ('b', 'bm'):
                    for cut in (0, 1):
                        for req in (('next', 'data'), ('data', 'next', 'skip'), ('skip', 'next', 'data')):
                            yield 'broken', (refbin.IVM + before + d, m, cut, req)
    else:
        for n in (0, 1, 2):
            for items in trees(n, few, CONTS):
                for j, m in enumerate(MODES):
                    if n < 2 or not q or (len(repr(items)) + j) % 2 == 0:
                        yield 'blocking', (items, m, 9)
        for k, items in enumerate(trees(3, LEAVES[:2], CONTS[:3])):
            for j, m in enumerate(MODES):
                if not q or (k + j) % 6 == 0:
                    yield 'blocking', (items, m, 9)
        for items in big():
            for m in MODES:
                yield 'blocking', (items, m, 1 if q else 2)
        for k, items in enumerate(huge()):
            for j, m in enumerate(MODES):
                if (k + j) % 4 == 0 and len(repr(items)) < (8000 if q else 30000):
                    yield 'blocking', (items, m, 0)


NAMES = (('small', 24), ('system', 8), ('big', 8), ('blocking', 8), ('broken', 2), ('huge', 16))



def jobs(tier):
    return [(name if name in ('blocking', 'broken') else 'explore', (name, tier, i, n)) for name, n in NAMES for i in range(n)]


def cases(kind, args):
    name, tier, i, n = args
    for k, x in enumerate(gen(name, tier)):
        if k % n == i:
            yield x[1]
