# -*- coding: utf-8 -*-
"""C11: text output is parsed by an independent parser; layout is judged token by token."""
from io import BytesIO

from .. import values as V, alpha, reftext, aliasing as A, tokens as T
from ..harness import Violation
from ..model import ion, to_py, to_events, canon, N, L, SX, ST, ann
from ..refsym import RefError, Unspecified
from .c10 import write

PID = 'C11'
RULE = ('Every value and stream of the generators under every text option, written by dumps, dump and the event writer, and every pair of symbol tokens that bring along IDs and positions of other contexts; all pairs of values that Python takes for equal or that are easily confused (numbers across types, one instant under different offsets, precisions and fractions, texts across types and annotations, empty values); the same object in several places; numbers under decimal contexts the caller set; six documents under every indentation unit (all words of Ion whitespace up to length 3, 4 in thorough, units of up to 5000 characters, all Unicode whitespace and other characters, alone and within lines); values changed in place between uses. The independent '
        'parser gives back the value from it. An independent tokeniser checks that pretty-printing has the same tokens as the '
        'compact form and that each line is indented by the unit times the nesting level. State = distinct (value, options, route), '
        'transition = one write.')
ASSUMPTIONS = ['values are finite trees of the enumerated alphabets', 'an indentation unit that is not whitespace of the Ion grammar must be refused or still give a valid document with the requested layout']

OPTS = {
    'c': {},
    'o': {'omit_version_marker': True},
    'i2': {'indent': '  '},
    'it': {'indent': '\t', 'omit_version_marker': True},
    'i0': {'indent': ''},
    'i5': {'indent': ' \t   '},
}


def tokens(text):
    """[(token, nesting level before it, layout before it)]."""
    out = []
    p, n, depth = 0, len(text), 0
    while True:
        q = p
        while p < n and text[p] in ' \t\r\n\v\f':
            p += 1
        space = text[q:p]
        if p == n:
            out.append(('', depth, space))
            return out
        c = text[p]
        q = p
        if text.startswith('{{', p) and not text.startswith('{{}', p) or text.startswith('{{}}', p):
            p += 2
            if text.startswith('"', p):
                p += 1
                while text[p] != '"':
                    p += 2 if text[p] == '\\' else 1
            p = text.index('}}', p) + 2
        elif c in '"\'':
            p += 1
            while text[p] != c:
                p += 2 if text[p] == '\\' else 1
            p += 1
        elif c in '[({':
            p += 1
            depth += 1
            out.append((c, depth - 1, space))
            continue
        elif c in '])}':
            p += 1
            depth -= 1
        elif text.startswith('::', p):
            p += 2
        elif c in ':,':
            p += 1
        else:
            while p < n and text[p] not in ' \t\r\n\v\f"\'[](){}:,' or (text[p:p + 1] == ':' and is_time(text[q:p])):
                p += 1
        out.append((text[q:p], depth, space))


def is_time(t):
    """Whether a colon belongs to the number or timestamp that precedes it."""
    return t[:1].isdigit() and 'T' in t


def parse(text, how, nodes):
    try:
        raw = reftext.parse_raw(text)
        return raw, reftext.parse_stream(text)
    except (RefError, Unspecified) as e:
        raise Violation('%s of %r gives %r, which is not valid Ion: %s' % (how, nodes, text[:400], e))


def check(text, nodes, how, marker):
    raw, got = parse(text, how, nodes)
    if [canon(g) for g in got] != [canon(n) for n in nodes]:
        raise Violation('%s of %r gives %r, which denotes %r' % (how, nodes, text[:400], got))
    k = raw.count('IVM')
    if k != (1 if marker else 0) or (marker and raw[0] != 'IVM'):
        raise Violation('%s of %r gives %r with %d version markers' % (how, nodes, text[:400], k))


def layout(text, unit, nodes):
    toks = tokens(text)
    first = True
    opener = None
    for t, depth, space in toks:
        if not t:
            if space:
                raise Violation('%r: whitespace at the end of %r' % (nodes, text[:400]))
            break
        if '\n' in space:
            if space != '\n' + unit * depth:
                raise Violation('%r printed as %r: before %r there is %r, the nesting level is %d' % (nodes, text[:600], t, space, depth))
        elif not first and opener in ('[', '(', '{', ',') and t not in ',':
            raise Violation('%r printed as %r: %r does not start a line' % (nodes, text[:600], t))
        first = False
        opener = t


def value(payload, rec):
    nodes, opt, stream = payload
    i = ion()
    kw = OPTS[opt]
    objs = [to_py(n) for n in nodes]
    obj = objs if stream else objs[0]
    text = i.dumps(obj, binary=False, sequence_as_stream=stream, **kw)
    check(text, nodes, 'dumps', 'omit_version_marker' not in kw)
    fp = BytesIO()
    i.dump(obj, fp, binary=False, sequence_as_stream=stream, **kw)
    if fp.getvalue() != text.encode('utf-8'):
        raise Violation('dump writes %r, dumps %r' % (fp.getvalue()[:300], text[:300]))
    rec.trans(2)
    if 'indent' in kw:
        compact = i.dumps(obj, binary=False, sequence_as_stream=stream, **{k: v for k, v in kw.items() if k != 'indent'})
        a, b = [t[:2] for t in tokens(compact)], [t[:2] for t in tokens(text)]
        if a != b:
            k = [x == y for x, y in zip(a, b)].index(False) if a[:len(b)] != b[:len(a)] else min(len(a), len(b))
            raise Violation('%r printed with indent as %r and compact as %r: the tokens differ at %r' % (nodes, text[:600], compact[:600], (a[k:k + 1], b[k:k + 1])))
        layout(text, kw['indent'], nodes)
        rec.trans()
    elif '\n' in text:
        raise Violation('%r is written with a line break: %r' % (nodes, text[:300]))
    rec.trace()
    rec.n_states += 1
    rec.outcome(nodes[0][1] if nodes else 'empty')


def events(payload, rec):
    nodes, opt = payload
    from amazon.ion.writer_text import text_writer
    i = ion()
    kw = OPTS[opt]
    ev = [e for n in nodes for e in to_events(n)]
    outs = []
    sym = i.by_name['symbol']
    plain = [e if e.ion_type is not sym or e.value is None or e.value.text is None else e.derive_value(e.value.text) for e in ev]
    for how, seq in (('tokens', ev), ('texts', plain)):
        data = write(text_writer(indent=kw.get('indent')), [i.core.ION_VERSION_MARKER_EVENT] + seq)
        text = data.decode('ascii')
        check(text, nodes, 'text_writer (%s)' % how, True)
        outs.append(text)
    if outs[0] != outs[1]:
        raise Violation('symbols given as tokens: %r, as text: %r' % tuple(outs))
    if 'indent' in kw:
        layout(outs[0], kw['indent'], nodes)
    rec.trans(2)
    rec.trace()
    rec.n_states += 1
    rec.outcome('events')


def foreign(payload, rec):
    a, b, opt = payload
    node, obj = T.case(a, b)
    text = ion().dumps(obj, binary=False, **OPTS[opt])
    check(text, (node,), 'dumps (tokens %r, %r)' % (a, b), 'omit_version_marker' not in OPTS[opt])
    rec.trans()
    rec.trace()
    rec.n_states += 1
    rec.outcome('tokens')


def verify(opt, rec):
    def go(objs, nodes, stream, what):
        text = ion().dumps(objs if stream else objs[0], binary=False, sequence_as_stream=stream, **OPTS[opt])
        check(text, nodes, 'dumps (%s)' % what, 'omit_version_marker' not in OPTS[opt])
        if 'indent' in OPTS[opt]:
            layout(text, OPTS[opt]['indent'], nodes)
        rec.trans()
        rec.trace()
        rec.n_states += 1
    return go


def shared(payload, rec):
    A.shared(payload[1], verify(payload[0], rec), rec)


def mutated(payload, rec):
    A.mutated(payload[1], verify(payload[0], rec), rec)


def layouts(payload, rec):
    unit, marker = payload
    i = ion()
    kw = {} if marker else {'omit_version_marker': True}
    for nodes in alpha.indent_nodes():
        stream = len(nodes) != 1
        objs = [to_py(n) for n in nodes]
        obj = objs if stream else objs[0]
        fp = BytesIO()
        try:
            i.dump(obj, fp, binary=False, sequence_as_stream=stream, indent=unit, **kw)
        except Exception as e:
            if all(c in alpha.ION_SPACE for c in unit):
                raise Violation('indent=%r is refused: %s: %s' % (unit, type(e).__name__, e))
            if not isinstance(e, ValueError):
                raise Violation('indent=%r raises %s: %s' % (unit, type(e).__name__, e))
            rec.outcome('refused')
            continue
        finally:
            rec.trans()
        try:
            text = fp.getvalue().decode('ascii')
        except ValueError as e:
            raise Violation('indent=%r: the output is %r' % (unit, fp.getvalue()[:400]))
        check(text, nodes, 'dump with indent=%r' % (unit,), marker)
        compact = i.dumps(obj, binary=False, sequence_as_stream=stream, **kw)
        if [t[:2] for t in tokens(text)] != [t[:2] for t in tokens(compact)]:
            raise Violation('%r printed with indent=%r as %r: its tokens are not those of %r' % (nodes, unit, text[:400], compact[:400]))
        layout(text, unit, nodes)
        rec.trace()
        rec.n_states += 1
        rec.outcome('layout')


KINDS = {'layouts': layouts, 'ambient': V.ambient(value), 'value': value, 'events': events, 'tokens': foreign, 'shared': shared, 'mutated': mutated}


def jobs(tier):
    gens = [('ctx', 24, ('c', 'i2')), ('pairs', 16, ('o', 'i5')), ('triples', 8, ('it',)), ('annots', 8, ('c', 'i0')),
            ('names', 8, ('c',)), ('lengths', 24, ('i2',)), ('deep', 4, ('c', 'it')), ('alike', 8, ('i2',)), ('dense', 16, ('i2',)), ('huget', 12, ('i2',)), ('trees4', 16, ('i5',)), ('symtext', 16, ('o',)), ('strtext', 16, ('c',))]
    if tier == 'thorough':
        gens = [(g, 32, tuple(OPTS) if g[:4] != 'huge' else o[:1]) for g, _, o in gens] + [('trees5', 64, ('c', 'i2')), ('trees6', 128, ('it',)), ('lengths+', 64, ('c', 'i2'))]
    out = [('value', (g, i, n, o)) for g, n, opts in gens for o in opts for i in range(n)]
    opts = ('c', 'i2') if tier == 'quick' else tuple(OPTS)
    out += [('value', ('streams', i, 8, o)) for i in range(8) for o in opts]
    out += [('events', (g, i, 16, o)) for g in (('ctx',) if tier == 'quick' else ('ctx', 'pairs', 'annots', 'names', 'trees4')) for i in range(16) for o in opts[:1]]
    out += [('events', ('streams', i, 8, o)) for i in range(8) for o in opts]
    out += [('tokens', (tier, i, 8, o)) for i in range(8) for o in (('c',) if tier == 'quick' else tuple(OPTS))]
    out += [('shared', (tier, i, 8, o)) for i in range(8) for o in (('c', 'i2') if tier == 'quick' else tuple(OPTS))]
    out += [('mutated', (tier, i, 16, o)) for i in range(16) for o in (('it',) if tier == 'quick' else tuple(OPTS))]
    out += [('ambient', ('numbers', i, k, 'i2')) for k in range(len(V.AMBIENT)) for i in range(8)]
    out += [('layouts', (tier, i, 8, None)) for i in range(8)]
    return out


def cases(kind, args):
    name, i, n, o = args
    if kind == 'layouts':
        for u in V.shard(iter(alpha.indent_units(name)), i, n):
            yield u, True
            yield u, False
        return
    if kind == 'ambient':
        for v in V.shard(V.numbers(), i, 8):
            yield ((v,), o, False), n
        return
    if kind in ('shared', 'mutated'):
        for p in V.shard(A.g_shared() if kind == 'shared' else A.g_mutated(name), i, n):
            yield o, p
        return
    if kind == 'tokens':
        for a, b in T.cases('none', name, i, n):
            yield a, b, o
        return
    gen = V.g_streams() if name == 'streams' else ((v,) for v in V.values(name))
    for s in V.shard(gen, i, n):
        yield (s, o) if kind == 'events' else (s, o, name == 'streams')
