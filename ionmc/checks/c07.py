# -*- coding: utf-8 -*-
"""C07: every cut point of every document: completion signals, flushing and loading of what was read so far."""
from itertools import product

from ..harness import Violation
from ..model import ion, from_py, Mismatch, canon
from .. import drive as D, refbin, reftext
from ..refsym import RefError, Unspecified
from ..values import shard
from . import c05, c06

PID = 'C07'
RULE = ('Every prefix (in characters, in UTF-8 bytes, in bytes of binary) of every document of the families is a stop point: signal '
        'after unit-wise and after one-piece reading, flush, reading on after the flush, and load of the prefix, against the '
        'reference parser and decoder. State = distinct prefix, transition = one run or load; non-trivial = every prefix.')
ASSUMPTIONS = ['a text prefix counts as complete when the reference parses it and no continuation changes its values (decided by four probing '
               'continuations: a number, a symbol, an annotation mark, a long string)']

_parse = {}


def parse(p):
    r = _parse.get(p)
    if r is None:
        try:
            r = reftext.parse_raw(p)
        except RefError:
            r = 'error'
        except Unspecified:
            r = 'unspecified'
        if len(_parse) > 300000:
            _parse.clear()
        _parse[p] = r
    return r


PROBES = (('1', [((), 'int', 1)]), ('a', [((), 'symbol', 'a')]), ("'''b'''", [((), 'string', 'b')]))


def settled(p):
    """True: stopping here is allowed and nothing can change what was read. None: left open."""
    v = parse(p)
    if v == 'unspecified':
        return None
    if v == 'error':
        return False
    for c, w in PROBES:
        q = parse(p + c)
        if q == 'unspecified':
            return None
        if q != v + w:
            return False
    q = parse(p + ' ::b')
    return None if q == 'unspecified' else q == 'error'


AFTER = (('1', [((), 'int', 1)]), ('a ', [((), 'symbol', 'a')]), ("'''b'''", [((), 'string', 'b')]), ('::b', None), (']', None), ('"s"', [((), 'string', 's')]),
         ('.5', None), ("''", [((), 'symbol', '')]), (' [] ', [((), 'list', ())]))

_seen = set()


def text(payload, rec):
    doc, after = payload
    whole = parse(doc)
    if whole == 'unspecified':
        rec.outcome('unspecified')
        return
    for mode in 'st':
        units = list(doc) if mode == 's' else [bytes([b]) for b in doc.encode('utf-8')]
        ends = None
        if mode == 't':
            # Byte positions that end a character, with the prefix they end.
            ends, n = {0: ''}, 0
            for k, ch in enumerate(doc):
                n += len(ch.encode('utf-8'))
                ends[n] = doc[:k + 1]
            if n == len(doc) and not after:
                ends = 'ascii'
        events, sig, err = D.signals(mode, units)
        rec.trans()
        if whole != 'error':
            want = D.ref_events(whole)
            if err is not None:
                raise Violation('mode %s: %r is valid, but reading it unit by unit raises %s' % (mode, doc, err))
            if events != want[:len(events)]:
                raise Violation('mode %s: %r read unit by unit reports %r for %r' % (mode, doc, events, want))
        for k, (n, s) in enumerate(sig):
            p = doc[:k] if mode == 's' or ends == 'ascii' else ends.get(k)
            if p is None:
                if s != 'INCOMPLETE':
                    raise Violation('mode %s: %s inside a character of %r, after %d bytes' % (mode, s, doc, k))
                continue
            w = settled(p)
            if w is not None and s != ('STREAM_END' if w else 'INCOMPLETE'):
                raise Violation('mode %s: after the prefix %r of %r read unit by unit the reader signals %s, although the prefix is %s' % (
                    mode, p, doc, s, 'complete' if w else 'not complete'))
        for k in range(len(units) + 1 if err is None else len(sig)):
            p = doc[:k] if mode == 's' or ends == 'ascii' else ends.get(k)
            key = (mode, p if p is not None else b''.join(units[:k]))
            if key in _seen:
                continue
            if len(_seen) > 400000:
                _seen.clear()
            _seen.add(key)
            flush(mode, p, units[:k], rec, after)


def flush(mode, p, units, rec, after):
    data = '' if mode == 's' else b''
    data = data.join(units)
    if p is None:
        q = data.decode('utf-8', 'ignore')
        if parse(q) != 'error' and parse(q + '"\u00e9') == parse(q):
            # In a line comment. Not a part of any value.
            return
    chunks = [data] if data else []
    rec.n_states += 1
    v = 'error' if p is None else parse(p)
    if v == 'unspecified':
        return
    w = False if p is None else settled(p)
    ev, end = D.drive(mode, chunks)
    ev0, sig, err = D.signals(mode, chunks)
    rec.trans(2)
    rec.trace()
    rec.outcome('%s %s' % ('/'.join(end), 'invalid' if v == 'error' else 'valid'))
    if err is not None:
        # Not a prefix of anything, or it would not have been rejected.
        if v != 'error':
            raise Violation('mode %s: %r is valid, but reading it raises %s' % (mode, data, err))
    else:
        if w is not None and sig[-1][1] != ('STREAM_END' if w else 'INCOMPLETE'):
            raise Violation('mode %s: after %r the reader signals %s, although it is %s' % (mode, data, sig[-1][1], 'complete' if w else 'not complete'))
        if v == 'error':
            if end[-1] == 'STREAM_END':
                raise Violation('mode %s: flushing after %r, which is not complete, ends the stream after %r' % (mode, data, ev))
            if ev != ev0:
                raise Violation('mode %s: flushing after %r, which is not complete, reports %r' % (mode, data, ev[len(ev0):]))
        else:
            want = D.ref_events(v)
            if ev != want or end[-1] != 'STREAM_END':
                raise Violation('mode %s: %r is complete and denotes %r, but flushing gives %r and %s' % (mode, data, want, ev, end))
            if len(end) > 1 and after:
                for c, more in AFTER:
                    got = flush_then(mode, chunks, c)
                    rec.trans()
                    if more is None:
                        if got[1] is None or got[0] != want:
                            raise Violation('mode %s: %r, flush, then %r: reported %r' % (mode, data, c, got))
                    elif got != (want + D.ref_events(more), None):
                        raise Violation('mode %s: %r, flush, then %r: reported %r for %r' % (mode, data, c, got, want + D.ref_events(more)))
    # Loading it through the blocking reader. The values are judged by the reference with symbol tables.
    try:
        want = None if p is None else reftext.parse_stream(p)
    except RefError:
        want = None
    except Unspecified:
        return
    load(data, want, rec)


def load(data, want, rec):
    i = ion()
    rec.trans()
    try:
        got = i.loads(data, single_value=False)
    except Exception as e:
        if want is not None:
            raise Violation('%r denotes %r, but loading it raises %s: %s' % (data, want, type(e).__name__, e))
        return
    try:
        got = [from_py(x) for x in got]
    except Mismatch as e:
        got = 'Mismatch %s' % e
    want = want and [keys(n) for n in want]
    if want is None:
        raise Violation('%r is not a complete stream, but loads to %r' % (data, got))
    if got != want and (isinstance(got, str) or [canon(x) for x in got] != [canon(x) for x in want]):
        raise Violation('%r denotes %r, but loads to %r' % (data, want, got))


def keys(node):
    """Loaded structs have one key for all field names with unknown text."""
    a, t, p = node
    if p is not None:
        if t in ('list', 'sexp'):
            p = tuple([keys(c) for c in p])
        elif t == 'struct':
            p = tuple([(f if isinstance(f, str) else 0, keys(c)) for f, c in p])
    return a, t, p


def flush_then(mode, chunks, c):
    """Reads the chunks, flushes to the end of stream, then reads c and flushes again. -> (events, error)."""
    b = D.B()
    r = D.make(mode)
    events = []
    todo = list(chunks) + ['flush', D.encode(mode, c), 'flush']
    send = b.NEXT
    try:
        while True:
            e = r.send(send)
            send = b.NEXT
            et = e.event_type
            if et is b.INC or et is b.END:
                if todo and todo[0] == 'flush':
                    if et is b.INC:
                        # Stay at the flush until the stream ends.
                        if len(events) > 1000:
                            return events, 'endless'
                        todo_flush = b.NEXT
                        send = todo_flush
                        continue
                    todo.pop(0)
                if not todo:
                    return events, None
                if todo[0] == 'flush':
                    continue
                send = b.data(todo.pop(0))
                continue
            events.append(D.norm(e))
    except Exception as e:
        return events, str(e) or type(e).__name__


def binary(payload, rec):
    doc, = payload
    try:
        whole = refbin.decode_raw(doc)
    except RefError:
        whole = 'error'
    except Unspecified:
        rec.outcome('unspecified')
        return
    if whole == 'error':
        return
    want = D.ref_events(whole)
    events, sig, err = D.signals('b', [doc[k:k + 1] for k in range(len(doc))])
    rec.trans()
    if err is not None or events != want:
        raise Violation('%r read byte by byte reports %r %s for %r' % (doc, events, err, want))
    managed = D.signals('bm', [doc[k:k + 1] for k in range(len(doc))], c06.cat())
    for k in range(len(doc) + 1):
        p = doc[:k]
        rec.n_states += 1
        rec.trace()
        try:
            v = refbin.decode_raw(p) if p else []
        except RefError:
            v = None
        except Unspecified:
            v = Unspecified
        ev0, sig0, err0 = D.signals('b', [p] if p else [])
        rec.trans(2)
        if err0 is not None or (sig0 and ev0 != want[:len(ev0)]):
            raise Violation('the prefix %r of %r reports %r %s' % (p, doc, ev0, err0))
        s = 'INCOMPLETE' if v is None else 'STREAM_END'
        for how, got in (('byte by byte', sig[k][1]), ('in one piece', sig0[-1][1])) + ((('managed', managed[1][k][1]),) if k < len(managed[1]) else ()):
            if v is not Unspecified and got != s:
                raise Violation('after the prefix %r of %r (%s) the reader signals %s' % (p, doc, how, got))
        rec.outcome('%s %d' % (s, len(ev0)))
        if v is not None and v is not Unspecified and ev0 != D.ref_events(v):
            raise Violation('the prefix %r denotes %r, reported %r' % (p, v, ev0))
        try:
            user = refbin.decode_stream(p) if k >= 4 else None if k else []
        except RefError:
            user = None
        except Unspecified:
            continue
        load(p, user, rec)


def stops(n, fine):
    if fine is None:
        return sorted(set(k for k in (n, n - 1, 65535, 65536, 65545, 2 ** 21 + 3) if 0 <= k <= n))
    ks = set([0, 1, 2, 3, n - 1, n - 2, n - 3, n - 4, n - 5, n, n // 2])
    if fine:
        ks.update(m for m in c06.MARKS)
        ks.update(n - m for m in c06.MARKS[:10])
    return sorted(k for k in ks if 0 <= k <= n)


def bigtext(payload, rec):
    """A long document: some of its prefixes, in one piece."""
    mode, doc, fine = payload
    if parse(doc) == 'unspecified':
        rec.outcome('unspecified')
        return
    for k in stops(len(doc), fine):
        p = doc[:k]
        u = D.encode(mode, p)
        flush(mode, p, [u] if u else [], rec, False)
        if k < len(doc) and ord(doc[k]) > 127 and mode == 't':
            flush(mode, None, [u + doc[k].encode('utf-8')[:1]], rec, False)


def bigbin(payload, rec):
    doc, fine = payload
    try:
        refbin.decode_raw(doc)
    except (RefError, Unspecified):
        rec.outcome('not judged')
        return
    for k in stops(len(doc), fine):
        p = doc[:k]
        rec.n_states += 1
        rec.trace()
        try:
            v = refbin.decode_raw(p) if p else []
        except RefError:
            v = None
        except Unspecified:
            continue
        for mode, chunks in (('b', [p]), ('bm', [p]), ('bm', [p[j:j + 100] for j in range(0, k, 100)] if fine else D.cut(p, range(65536, k, 65536)))):
            ev0, sig0, err0 = D.signals(mode, chunks if k else [], c06.cat() if mode == 'bm' else None)
            rec.trans()
            if mode == 'bm' and err0 is not None:
                continue
            if err0 is not None:
                raise Violation('the prefix of %d bytes of %r reports %s' % (k, doc[:200], err0))
            if sig0[-1][1] != ('INCOMPLETE' if v is None else 'STREAM_END'):
                raise Violation('after the prefix of %d bytes of %r (%d bytes, %s) the reader signals %s' % (k, doc[:200], len(doc), mode, sig0[-1][1]))
            if v is not None and mode == 'b' and ev0 != D.ref_events(v):
                raise Violation('the prefix of %d bytes of %r denotes %r, reported %r' % (k, doc[:200], str(v)[:500], str(ev0)[:500]))
        rec.outcome('%s big' % (v is None))
        try:
            user = refbin.decode_stream(p) if k >= 4 else None if k else []
        except RefError:
            user = None
        except Unspecified:
            continue
        load(p, user, rec)


KINDS = {'text': text, 'binary': binary, 'bigtext': bigtext, 'bigbin': bigbin}
BIGQ = {'big_t': 7, 'bigger_t': 53, 'big_b': 3, 'bigger_b': 17, 'many_t': 11, 'many_b': 11}


def g_tok1():
    for t in c06.g_tok1():
        yield t


def g_tok2():
    for t, u in product(c06.TOK, c06.TOK):
        yield t + u
        yield t + ' ' + u


def g_tok3():
    s = [t for t in c06.TOK if len(t) < 6]
    for t, u, v in product(s, s, s):
        yield t + u + v


def g_tok2c():
    for t, u in product(c06.TOK, c06.TOK):
        for a, b in (('[', ']'), ('(', ')'), ('{a:', '}')):
            yield a + t + u + b


def g_long():
    for d in c05.CORPUS + c06.LONG + c06.TABLES_T:
        yield d
        yield '[' + d + ']'
        yield 'a ' + d
    for a in c05.CORPUS:
        for b in c06.LONG:
            yield a + ' ' + b


def g_bin():
    for d in c06.g_bin1():
        yield d
    for d in c06.g_bin2():
        yield d
    for d in c06.tables_bin():
        yield d


G = {'tok1': (g_tok1, True), 'tok2': (g_tok2, True), 'tok2c': (g_tok2c, False), 'tok3': (g_tok3, False), 'chars3': (c06.g_chars(3, c05.CHARS_S), True),
     'chars4': (c06.g_chars(4, c05.CHARS_S), False), 'long': (g_long, False), 'edits': (c06.g_edits, False)}


def jobs(tier):
    names = {'tok1': 8, 'tok2': 32, 'tok2c': 32, 'chars3': 24, 'long': 24, 'edits': 24}
    if tier == 'thorough':
        names.update(tok3=256, chars4=256)
    return [('text', (g, i, n)) for g, n in names.items() for i in range(n)] + [('binary', ('bin', i, 24)) for i in range(24)] + [
        ('bigtext' if m[0] in 'st' else 'bigbin', (g, m, i, 8, tier)) for g in c06.BG for m in ('st' if g[-1] == 't' else 'b') for i in range(8)] + [
        ('bigtext' if m != 'b' else 'bigbin', ('huge', m, i, 8, tier)) for m in ('tb' if tier == 'quick' else 'stb') for i in range(8)]


def cases(kind, args):
    if kind in ('bigtext', 'bigbin'):
        g, m, i, n, tier = args
        if g == 'huge':
            for d in shard(c06.huge_docs('bm' if m == 'b' and tier == 'quick' else m, tier), i, n):
                yield (m, d, None) if m != 'b' else (d, None)
            return
        step = BIGQ[g] if tier == 'quick' else 1
        for d in shard(shard(c06.BG[g][0](), 'stb'.index(m) if tier == 'quick' else 0, step), i, n):
            yield (m, d, 'bigger' not in g) if kind == 'bigtext' else (d, True)
        return
    g, i, n = args
    if kind == 'binary':
        for d in shard(g_bin(), i, n):
            yield (d,)
        return
    for d in shard(G[g][0](), i, n):
        yield (d, G[g][1])
