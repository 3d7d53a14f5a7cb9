# -*- coding: utf-8 -*-
"""Values that are not plain trees in memory: the same object in several places, and objects that are changed in place
between one use and the next. Both families are finite and are shared by the serialisation checks, each of which brings
its own oracle as verify(objects, nodes, stream, what)."""
import copy
import pickle
from itertools import product

from . import alpha
from .harness import Violation
from .model import N, L, SX, ST, ann, ion, to_py, from_py, canon


# ---- sharing

def mk(t, kids, annots=()):
    """A container of the very objects given."""
    i = ion()
    T = i.by_name[t]
    if t == 'struct':
        v = i.st.IonPyDict()
        v.ion_type, v.ion_annotations = T, tuple(annots)
        for f, c in kids:
            v.add_item(f, c)
        return v
    v = i.st.IonPyList.from_value(T, [], tuple(annots))
    for c in kids:
        v.append(c)
    return v


def node(t, kids, annots=()):
    return N(t, tuple(kids), *annots)


def build(shape, leaves):
    """shape is ('#', k) - leaf k - or (type, kids...) with kids (name, shape) for structs; ('=', k) is the k-th container
    finished so far, the same object. Returns (node, object)."""
    done = []

    def go(s):
        if s[0] == '#':
            return leaves[s[1]]
        if s[0] == '=':
            return done[s[1]]
        annots = ()
        if s[0] == '@':
            annots, s = s[1], s[2]
        if s[0] == 'struct':
            kids = [(f, go(c)) for f, c in s[1:]]
            r = (node('struct', [(f, n) for f, (n, _) in kids], annots), mk('struct', [(f, o) for f, (_, o) in kids], annots))
        else:
            kids = [go(c) for c in s[1:]]
            r = (node(s[0], [n for n, _ in kids], annots), mk(s[0], [o for _, o in kids], annots))
        done.append(r)
        return r
    return go(shape)


X, Y = ('#', 0), ('#', 1)
SHAPES = [
    ('list', X, X), ('sexp', X, X, X), ('struct', ('a', X), ('b', X)), ('struct', ('a', X), ('a', X)), ('struct', ('a', X), ('b', Y), ('a', X)),
    ('list', X, Y, X, Y), ('list', ('list', X), X), ('list', X, ('list', X)), ('sexp', ('sexp', X, Y), ('sexp', Y, X)),
    ('list', ('list', X, X), ('=', 0)), ('list', ('sexp', X, Y), ('=', 0), ('=', 0)), ('struct', ('a', ('struct', ('a', X))), ('b', ('=', 0))),
    ('struct', ('a', ('list', X)), ('a', ('=', 0)), ('b', ('struct', ('c', ('=', 0))))), ('list', ('list',), ('=', 0)), ('sexp', ('sexp',), ('=', 0)), ('list', ('struct',), ('=', 0), ('=', 0)),
    ('list', ('list', ('list', X, X), ('=', 0)), ('=', 1)), ('sexp', ('struct', ('k', X)), ('list', ('=', 0)), ('=', 0)),
    ('@', ('a',), ('list', ('@', ('b', 'a'), ('list', X)), ('=', 0))), ('list', ('@', ('a',), ('struct', ('a', X))), ('struct', ('a', ('=', 0)))),
    ('list', ('list', ('list', ('list', X, ('#', 1)), ('=', 0)), ('=', 1), ('=', 0)), ('=', 2), ('=', 0)),
]


def leaves():
    c = [x for x in alpha.core() if x[1] not in ('list', 'sexp', 'struct') or x[2] is None]
    return c + [N('int', 1, 'a', 'b'), N('symbol', 'q', 'r'), N('string', '', '')]


def containers():
    return [L(), SX(), ST(), L(N('int', 1), N('symbol', 'm')), SX(N('symbol', '+'), L()), ST(('a', N('int', 1)), ('a', N('symbol', 'b'))), ann(L(SX()), 'a'), ann(ST(('x', ST())), 'c', 'd')]


def g_shared():
    c = leaves()
    for k, x in enumerate(c):
        for s in range(len(SHAPES)):
            yield s, x, c[(k * 7 + s + 1) % len(c)]
    for x in containers():
        for y in containers():
            for s in range(len(SHAPES)):
                yield s, x, y


def shared(payload, verify, rec, streams=True):
    s, x, y = payload
    lv = [(x, to_py(x)), (y, to_py(y))]
    n, o = build(SHAPES[s], lv)
    verify([o], [n], False, 'shared')
    if streams and x[1] != 'symbol' and n != x:
        # The same objects as values of a stream: itself again, and a part of it before and after.
        if any(k == lv[0][0] for k in [n]) or x[1] in ('null', 'int', 'string', 'list', 'sexp', 'struct') and not x[0] and x[2] is not None:
            verify([lv[0][1], o, o, lv[0][1]], [x, n, n, x], True, 'shared')
    rec.outcome('shared')


# ---- changes in place between uses

BASES = [
    L(N('int', 1), N('symbol', 's'), L(N('int', 2))),
    SX(N('symbol', '+'), SX(N('symbol', 'a')), N('string', 'x')),
    ST(('a', N('int', 1)), ('b', L(N('symbol', 'q'))), ('a', N('int', 2))),
    ann(L(ann(N('int', 1), 'm'), ST(('f', N('blob', b'z')))), 'n', 'o'),
    ann(ST(('a', ann(ST(('c', N('clob', b'c'))), 'r')), ('z', N('null'))), 's'),
    L(), ST(),
    L(*[N('int', k) for k in range(20)]),
]

NEW = [N('int', 9), N('symbol', 'new'), ann(L(N('symbol', 'nn')), 'an')]


def thaw(n):
    a, t, p = n
    if p is not None and t in ('list', 'sexp'):
        p = [thaw(c) for c in p]
    elif p is not None and t == 'struct':
        p = [(f, thaw(c)) for f, c in p]
    return [a, t, p]


def freeze(m):
    a, t, p = m
    if p is not None and t in ('list', 'sexp'):
        p = tuple(freeze(c) for c in p)
    elif p is not None and t == 'struct':
        p = tuple((f, freeze(c)) for f, c in p)
    return (a, t, p)


def paths(n, depth=2):
    """Positions in a node; the first member of each name in a struct."""
    out = [()]
    if depth and n[2] is not None and n[1] in ('list', 'sexp', 'struct'):
        seen = set()
        for k, c in enumerate(n[2]):
            if n[1] == 'struct':
                if c[0] in seen:
                    continue
                seen.add(c[0])
                c = c[1]
            if k < 3:
                out += [(k,) + q for q in paths(c, depth - 1)]
    return out


SEQ = ('append', 'insert', 'set0', 'set-', 'pop', 'del0', 'reverse', 'clear', 'slice', 'plain', 'type', 'annot', 'extend')
STR = ('set', 'new', 'add', 'addnew', 'del', 'plain', 'annot', 'clear')


def at(m, o, path):
    for k in path:
        if m[2] is None or m[1] not in ('list', 'sexp', 'struct') or k >= len(m[2]):
            return None
        if m[1] == 'struct':
            f, c = m[2][k]
            first = [j for j, (g, _) in enumerate(m[2]) if g == f]
            m, o = c, list(o.get_all_values(f))[first.index(k)]
        else:
            m, o = m[2][k], o[k]
    return m, o


def ops_for(n, path):
    m = thaw(n)
    for k in path:
        m = m[2][k][1] if m[1] == 'struct' else m[2][k]
    if m[1] in ('list', 'sexp'):
        return SEQ
    return STR if m[1] == 'struct' else ('annot', 'type') if m[1] in ('blob', 'clob') else ('annot',)


def change(root, obj, path, op, k=0):
    """Applies an operation to node and object; False where it does not apply."""
    r = at(root, obj, path)
    if r is None:
        return False
    m, o = r
    i = ion()
    new, new2 = NEW[k % 3], NEW[(k + 1) % 3]
    p = m[2]
    if op == 'annot':
        if p is None:
            return False
        m[0] = ('other',) if m[0] else ('first', 'second')
        o.ion_annotations = tuple(i.sym.SymbolToken(t, None) for t in m[0]) if k % 2 else m[0]
        return True
    if op == 'type':
        swap = {'list': 'sexp', 'sexp': 'list', 'blob': 'clob', 'clob': 'blob'}
        if m[1] not in swap:
            return False
        m[1] = swap[m[1]]
        o.ion_type = i.by_name[m[1]]
        return True
    if p is None:
        return False
    if m[1] in ('list', 'sexp'):
        if op == 'append':
            p.append(thaw(new))
            o.append(to_py(new))
        elif op == 'insert':
            p.insert(0, thaw(new))
            o.insert(0, to_py(new))
        elif op == 'extend':
            p.extend([thaw(new), thaw(new2)])
            o.extend([to_py(new), to_py(new2)])
        elif op == 'slice':
            p[:1] = [thaw(new), thaw(new2)]
            o[:1] = [to_py(new), to_py(new2)]
        elif op == 'plain':
            p.append(thaw(ST(('p', L(N('int', 1), N('string', 'x'))))))
            o.append({'p': [1, 'x']})
        elif op == 'clear':
            del p[:]
            del o[:]
        elif op == 'reverse':
            p.reverse()
            o.reverse()
        elif op not in SEQ or not p:
            return False
        elif op == 'set0':
            p[0] = thaw(new)
            o[0] = to_py(new)
        elif op == 'set-':
            p[-1] = thaw(new)
            o[-1] = to_py(new)
        elif op == 'pop':
            p.pop()
            o.pop()
        elif op == 'del0':
            del p[0], o[0]
        else:
            return False
        return True
    if m[1] != 'struct' or op not in STR:
        return False
    if op in ('new', 'addnew', 'add', 'plain'):
        f = p[0][0] if op == 'add' and p else 'fresh%d' % k
        c, v = (thaw(new), to_py(new)) if op != 'plain' else (thaw(L(N('int', 1))), [1])
        if op == 'new':
            if any(g == f for g, _ in p):
                p[:] = [(g, d) for g, d in p if g != f]
            o[f] = v
        else:
            o.add_item(f, v)
        p.append((f, c))
    elif op == 'clear':
        del p[:]
        for f in list(o):
            del o[f]
    elif not p:
        return False
    elif op == 'set':
        f = p[0][0]
        p[:] = [(g, c) for g, c in p if g != f] + [(f, thaw(new))]
        o[f] = to_py(new)
    else:
        f = p[0][0]
        p[:] = [(g, c) for g, c in p if g != f]
        del o[f]
    return True


def origin(k, n):
    if k == 0:
        return to_py(n)
    i = ion()
    o = i.loads(i.dumps(to_py(n), binary=k == 2))
    if canon(from_py(o)) != canon(n):
        raise Violation('%r loads as %r' % (n, from_py(o)))
    return o


def _event(o):
    i = ion()
    o.to_event(i.core.IonEventType.CONTAINER_START)


TOUCH = [
    ('binary', lambda o: ion().dumps(o)), ('text', lambda o: ion().dumps(o, binary=False)), ('indent', lambda o: ion().dumps(o, binary=False, indent=' ')),
    ('stream', lambda o: ion().dumps([o, o], sequence_as_stream=True)), ('equals', lambda o: ion().ion_equals(o, copy.deepcopy(o))), ('copy', copy.copy),
    ('deepcopy', copy.deepcopy), ('pickle', lambda o: pickle.loads(pickle.dumps(o, 2))), ('repr', repr), ('event', _event), ('items', lambda o: [list(o), len(o)]),
]


def g_mutated(tier):
    q = tier == 'quick'
    for b, base in enumerate(BASES):
        ps = paths(base)
        for org in (0, 1, 2):
            for t in range(len(TOUCH)):
                for path in ps:
                    for k, op in enumerate(ops_for(base, path)):
                        if q and org and t > 3 and (t + k) % 3:
                            continue
                        yield b, org, ((t, path, op, k),)
        allops = [(path, op) for path in ps[:4] for op in ops_for(base, path)]
        for j, ((p1, o1), (p2, o2)) in enumerate(product(allops, repeat=2)):
            for org in (0, 1, 2) if not q else (j % 3,):
                for t in (0, 1) if q else range(len(TOUCH)):
                    yield b, org, ((t, p1, o1, j), (t, p2, o2, j + 1))


def mutated(payload, verify, rec):
    b, org, steps = payload
    m, o = thaw(BASES[b]), origin(org, BASES[b])
    for t, path, op, k in steps:
        TOUCH[t][1](o)
        if not change(m, o, path, op, k):
            return
    verify([o], [freeze(m)], False, 'after %r' % (steps,))
    rec.outcome('mutated')
