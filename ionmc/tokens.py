# -*- coding: utf-8 -*-
"""Symbol tokens that bring an ID and an import position of some other context along: what has text is that text."""
from itertools import product

from .model import ion, N, L, ST, ann

TEXTS = {
    'none': ('a', 'name', '\u00e9', '$10'),
    't1': ('a', 'zz', 'name', 'q'),
    't2': ('a', 'z', 'x', 'q'),
    'big': ('a', 'u0', 'u299', 'q'),
}
SIDS = {'quick': (None, 1, 4, 10, 11, 13), 'thorough': (None, 0, 1, 4, 5, 9, 10, 11, 12, 13, 14, 300, 2 ** 31)}
LOCS = {'quick': (None, ('t1', 1), ('other', 3)), 'thorough': (None, ('t1', 1), ('t1', 3), ('other', 3), ('$ion', 4), ('\u00e9t', 5))}


def specs(opt, tier):
    return list(product(TEXTS[opt], SIDS[tier], LOCS[tier])) + [('', sid, loc) for sid in SIDS[tier] for loc in LOCS[tier][:1 if tier == 'quick' else 3]]


def token(s):
    text, sid, loc = s
    i = ion()
    return i.sym.SymbolToken(text, sid, None if loc is None else i.sym.ImportLocation(*loc))


def case(a, b):
    """The nodes and the objects (Ion-natured and plain ones, in every position) of two tokens."""
    i = ion()
    x, y = token(a), token(b)
    p, q = a[0], b[0]
    T = i.core.IonType
    sym = i.st.IonPySymbol.from_value
    d = i.st.IonPyDict()
    d.ion_type = T.STRUCT
    d.add_item(x, i.st.IonPyInt.from_value(T.INT, 1, (y, x)))
    d.add_item(y, y)
    node = L(N('symbol', p), N('symbol', q, p), ST((p, N('int', 1, q, p)), (q, N('symbol', q))), L(N('symbol', q), ST((q, N('symbol', p)))))
    obj = [x, sym(T.SYMBOL, y, (x,)), d, (y, {y: x})]
    return node, obj


def cases(opt, tier, i, n):
    s = specs(opt, tier)
    for k, (a, b) in enumerate(product(s, repeat=2)):
        if k % n == i:
            yield a, b
