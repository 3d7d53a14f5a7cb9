# -*- coding: utf-8 -*-
"""C02: text round trip."""
from .. import values as V, alpha, aliasing as A, tokens as T
from ..model import N, ion, to_py
from . import c01
from .c01 import roundtrip

PID = 'C02'
RULE = ('Every value of the generators named in cases_by_kind crossed with text options (indent None, empty, space, tab, '
        'version marker kept or omitted), loaded back from str and from UTF-8 bytes; symbol tokens bringing foreign IDs and positions in all pairs; long contents and 16400 elements; all pairs of values that Python takes for equal or that are easily confused (numbers across types, one instant under different offsets, precisions and fractions, texts across types and annotations, empty values); the same object in several places; numbers under decimal contexts the caller set; six documents under every indentation unit (words of Ion whitespace up to length 3, 4 in thorough, up to 5000 characters, other characters refused or harmless); values changed in place between uses; state = distinct (value, options), '
        'transition = one dump or load.')
ASSUMPTIONS = ['values are finite trees of the enumerated alphabets; strings are valid Unicode',
               'top-level values that Ion defines as system values are excluded']

OPTS = {
    'c': {},
    'o': {'omit_version_marker': True},
    'i2': {'indent': '  '},
    'it': {'indent': '\t', 'omit_version_marker': True},
    'i0': {'indent': ''},
}


def one(payload, rec):
    node, opt = payload
    roundtrip((node,), rec, 'none', False, OPTS[opt], text=True)


def stream(payload, rec):
    nodes, opt = payload
    roundtrip(nodes, rec, 'none', True, OPTS[opt], text=True)


def tokens(payload, rec):
    c01.tokens(payload, rec, dump_kw=OPTS[payload[2]], text=True)


def shared(payload, rec):
    A.shared(payload[1], c01.verify('none', rec, OPTS[payload[0]], True), rec)


def mutated(payload, rec):
    A.mutated(payload[1], c01.verify('none', rec, OPTS[payload[0]], True), rec)


def layouts(payload, rec):
    unit, = payload
    for nodes in alpha.indent_nodes():
        try:
            ion().dumps([to_py(n) for n in nodes], binary=False, sequence_as_stream=True, indent=unit)
        except ValueError:
            if all(c in alpha.ION_SPACE for c in unit):
                raise
            rec.trans()
            rec.outcome('refused')
            continue
        roundtrip(nodes, rec, 'none', len(nodes) != 1, {'indent': unit}, text=True)


KINDS = {'layouts': layouts, 'ambient': V.ambient(one), 'value': one, 'stream': stream, 'tokens': tokens, 'shared': shared, 'mutated': mutated}


def jobs(tier):
    gens = [('ctx', 16, ('c', 'i2')), ('pairs', 16, ('o', 'it')), ('triples', 16, ('c',)), ('annots', 8, ('c',)),
            ('names', 8, ('c', 'i2')), ('lengths', 16, ('c',)), ('deep', 4, ('c', 'i0')), ('alike', 8, ('c',)), ('dense', 16, ('c',)), ('huget', 12, ('c',)), ('trees4', 16, ('it',)), ('symtext', 16, ('c',)), ('strtext', 16, ('i2',))]
    if tier == 'thorough':
        gens = [(g, 32, tuple(OPTS) if g[:4] != 'huge' else o[:1]) for g, _, o in gens] + [('trees5', 64, ('c', 'i2')), ('trees6', 128, ('c',)), ('lengths+', 64, ('i2',))]
    out = []
    for name, n, opts in gens:
        for o in opts:
            out += [('value', (name, i, n, o)) for i in range(n)]
    out += [('stream', ('streams', i, 8, o)) for i in range(8) for o in (('c', 'it') if tier == 'quick' else tuple(OPTS))]
    out += [('tokens', (tier, i, 8, o)) for i in range(8) for o in (('c',) if tier == 'quick' else tuple(OPTS))]
    out += [('shared', (tier, i, 8, o)) for i in range(8) for o in (('i2',) if tier == 'quick' else tuple(OPTS))]
    out += [('mutated', (tier, i, 16, o)) for i in range(16) for o in (('c',) if tier == 'quick' else tuple(OPTS))]
    out += [('ambient', ('numbers', i, k, 'c')) for k in range(len(V.AMBIENT)) for i in range(8)]
    out += [('layouts', (tier, i, 8, None)) for i in range(8)]
    return out


def cases(kind, args):
    name, i, n, o = args
    if kind == 'layouts':
        for u in V.shard(iter(alpha.indent_units(name)), i, n):
            yield u,
        return
    if kind == 'ambient':
        for v in V.shard(V.numbers(), i, 8):
            yield (v, o), n
        return
    if kind in ('shared', 'mutated'):
        for p in V.shard(A.g_shared() if kind == 'shared' else A.g_mutated(name), i, n):
            yield o, p
        return
    if kind == 'tokens':
        for a, b in T.cases('none', name, i, n):
            yield a, b, o
        return
    if kind == 'stream':
        for s in V.shard(V.g_streams(), i, n):
            yield (s, o)
        return
    for v in V.shard(V.values(name), i, n):
        yield (v, o)
