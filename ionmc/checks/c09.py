# -*- coding: utf-8 -*-
"""C09: symbol contexts. Every history of version markers, symbol tables and catalog changes to the depth bound; after
every step every symbol ID is used as value, annotation and field name."""
from itertools import product

from ..harness import Violation
from ..model import ion, N, L, SX, ST, ann, EventTree, Mismatch
from .. import drive as D, refbin
from ..refsym import Context, RefError, Unspecified
from ..values import shard

PID = 'C09'
RULE = ('Every sequence, to the depth bound, of context items (version marker; local symbol tables of every shape; annotated structs that '
        'are none; ordinary values; registrations in the catalog), in text and in binary, and tables, imports and appends of sizes around powers of two up to 16384 and of 20000. After every item all IDs the '
        'model has in force are used as value, annotation and field name, and the next ID must be refused in each position. '
        'Events are looked into as they come, only at the end, and twice; read whole, item by item and unit by unit; and '
        'loaded. State = distinct (history, format), transition = one run.')
ASSUMPTIONS = ['symbol table structs with repeated symbols or imports fields are not judged (unspecified)']

CAT = {'t': {1: ['t1', 't2'], 2: ['t1', 't2', 't3']}, 'u': {1: ['u1', None, 'x']}}
S = '$ion_symbol_table'


def imp(name=None, version=None, max_id=None, *more):
    f = ()
    if name is not None:
        f += (('name', N('string', name)),)
    if version is not None:
        f += (('version', N('int', version)),)
    if max_id is not None:
        f += (('max_id', N('int', max_id)),)
    return ST(*(f + more))


def lst(*fields):
    return ann(ST(*fields), S)


def syms(*s):
    return ('symbols', L(*[N('string', x) if isinstance(x, str) else x for x in s]))


def imps(*i):
    return ('imports', L(*i))


APPEND = ('imports', N('symbol', S))
ITEMS = {
    'ivm': 'IVM',
    'new': lst(syms('x', 'y')),
    'app': lst(APPEND, syms('y', 'w')),
    'app0': lst(syms('v'), APPEND),
    'imp': lst(imps(imp('t', 1, 2)), syms('z')),
    'empty': lst(),
    'holes': lst(syms('x', N('string'), N('int', 1), 'x', L(N('string', 'n')), ann(N('string', 'an'), 'name'), '')),
    'pad': lst(imps(imp('t', 3, 4)), syms('z')),
    'cut': lst(imps(imp('t', 2, 1), imp('u', 1, 3))),
    'miss': lst(imps(imp('no', 1, 2)), syms('m')),
    'exact': lst(imps(imp('t', 2), imp('u', 1))),
    'bad': lst(imps(imp('t', 9))),
    'bad2': lst(imps(imp('no', 1))),
    'odd': lst(('name', L(N('string', 'q'))), syms('o'), ('version', ST(('symbols', L(N('string', 'q'))))),
               imps(N('int', 1), imp(None, 1, 3), imp('', 1, 3), imp('$ion', 1, 9), L(imp('u', 1, 3)), imp('t', 0, 2), imp('u', -1, 1, ('symbols', L(N('int', 5)))), SX(), N('struct'))),
    'nullimp': lst(('imports', N('symbol')), syms('p')),
    'strimp': lst(('imports', N('string', S)), ('symbols', N('list'))),
    'sexp': lst(('symbols', SX(N('string', 'q'))), ('imports', SX(imp('t', 1, 2)))),
    'ann2': ann(ST(syms('a2')), S, 'name'),
    'not1': ann(ST(syms('n')), 'name', S),
    'not2': L(lst(syms('n'))),
    'not3': ann(L(syms('n')[1]), S),
    'neg': lst(imps(imp('t', 2, -1), imp('u', 1, None, ('max_id', N('decimal', (0, 1, 0)))))),
    'zero': lst(imps(imp('no', 1, 0), imp('t', 2, 0)), syms('z')),
    'nulls': lst(imps(imp('t', None, None, ('version', N('int')), ('max_id', N('int'))), imp(None, 1, 2, ('name', N('string')))), ('symbols', L(N('null'), N('string', 'z')))),
    'reg': ('register', 'no', 1, ('r1', 'r2', 'r3')),
    'reg2': ('register', 't', 3, ('t1', 't2', 't3', 't4', 't5')),
}
FIRST = ['ivm', 'new', 'app', 'imp', 'empty', 'holes', 'pad', 'cut', 'miss', 'exact', 'app0', 'not1']
CORE = ['ivm', 'new', 'app', 'imp', 'holes', 'miss']


def sized(nm):
    """The item of a name, or one of the given size."""
    if not isinstance(nm, tuple):
        return ITEMS[nm]
    kind, n = nm
    words = ['%s%d' % (kind[0], k) for k in range(n)]
    if kind == 'new':
        return lst(syms(*words))
    if kind == 'app':
        return lst(APPEND, syms(*words))
    if kind == 'pad':
        return lst(imps(imp('t', 3, n), imp('u', 1, 3)), syms('z'))
    return lst(imps(imp('no', 1, n), imp('t', 1, 2)), syms(*words[:3]))


def uses(n):
    """Values that use every ID up to n (of large tables, the ends, and those around powers of two) in every position."""
    ids = [('$', k) for k in range(n + 1)]
    if n > 60:
        marks = [0, 9, 10, n] + [b + (1 << k) for k in range(3, 14) for b in (0, 9)]
        ids = [('$', k) for k in sorted(set(m + d for m in marks for d in (-1, 0, 1) if 0 <= m + d <= n))]
    out = [L(*[N('symbol', s) for s in ids])]
    out.append(N('int', 7, *ids))
    out.append(N('struct', tuple((s, N('symbol', ids[-1 - k], s)) for k, s in enumerate(ids))))
    # At the top level, where $2 would be taken for a version marker and $3 would start a symbol table.
    out += [N('symbol', ids[-1], ids[-1]), ann(ST((ids[-1], N('null'))), ids[-1] if n > 9 else ('$', 4))]
    if n > 9:
        out.append(N('symbol', ids[-1]))
    return out


# ---- rendering

def text_sym(s):
    if isinstance(s, str):
        return "'" + s + "'" if s not in SYSIDS or s == '' else s
    return '$%d' % (s if s == 0 else s[1])


SYSIDS = {s: k + 1 for k, s in enumerate(['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion_shared_symbol_table'])}


def text(node, ids):
    a, t, p = node
    sy = (lambda s: '$%d' % SYSIDS[s] if ids and s in SYSIDS else text_sym(s))
    out = ''.join(sy(s) + '::' for s in a)
    if p is None:
        return out + ('null' if t == 'null' else 'null.' + t)
    if t == 'int':
        return out + str(p)
    if t == 'decimal':
        return out + '%dd%d' % (p[1], p[2])
    if t == 'string':
        return out + '"' + p + '"'
    if t == 'symbol':
        return out + sy(p)
    if t == 'list':
        return out + '[' + ', '.join(text(c, ids) for c in p) + ']'
    if t == 'sexp':
        return out + '(' + ' '.join(text(c, ids) for c in p) + ')'
    return out + '{' + ', '.join(sy(f) + ':' + text(c, ids) for f, c in p) + '}'


def render(fmt, node):
    if fmt[0] == 'b':
        if node == 'IVM':
            return refbin.IVM
        return refbin.encode(node, lambda s: s if s == 0 else SYSIDS[s] if isinstance(s, str) else s[1])
    if node == 'IVM':
        return '$ion_1_0 '
    return text(node, fmt == 'ti') + '\n'


class Model(object):
    def __init__(self):
        self.cat = {n: {v: list(t) for v, t in vs.items()} for n, vs in CAT.items()}
        self.ctx = Context(self.cat)
        self.out = []

    def feed(self, node):
        if node == 'IVM':
            self.ctx.reset()
        else:
            self.ctx.top_level(node, self.out)


def history(payload, rec):
    fmt, names = payload
    m = Model()
    chunks = [refbin.IVM] if fmt == 'b' else []
    regs = {}
    error = False
    for nm in names:
        item = sized(nm)
        if item[0] == 'register':
            _, name, v, texts = item
            m.cat.setdefault(name, {})[v] = list(texts)
            regs.setdefault(len(chunks), []).append((name, v, texts))
            continue
        chunks.append(render(fmt, item))
        try:
            m.feed(item)
        except RefError:
            error = True
            break
        except Unspecified:
            rec.outcome('unspecified')
            return
        u = uses(len(m.ctx.tab))
        chunks.append(type(chunks[0])().join(render(fmt, v) for v in u))
        for v in u:
            m.feed(v)
    if regs and max(regs) >= len(chunks):
        return      # registered after everything
    rec.n_states += 1
    doc = chunks[0][:0].join(chunks)
    want = m.out
    rec.outcome('error' if error else 'values %d' % len(want))
    plans = [('item by item', chunks, False), ('item by item, late', chunks, True)]
    if not regs:
        plans += [('whole, late', [doc], True)]
        if len(names) <= 2 and len(doc) < 2000:
            plans += [('unit by unit', [doc[k:k + 1] for k in range(len(doc))], False)]
    for how, ch, late in plans:
        got, err = play(fmt, ch, regs if ch is chunks else {}, late, error)
        rec.trans()
        rec.trace()
        if error:
            # A bad import is an error after everything before it has been reported.
            if err is None:
                raise Violation('%s: %r (%s) must be refused, reported %r' % (fmt, doc, how, got[len(want):]))
        elif err is not None:
            raise Violation('%s: %r (%s) raises %s; the model says %r' % (fmt, doc, how, err, want[-6:]))
        if got != want and not (error and late):
            k = [a == b for a, b in zip(got, want)].index(False) if got[:len(want)] != want[:len(got)] else min(len(got), len(want))
            raise Violation('%s: %r (%s): value %d is reported as %r, the model says %r' % (fmt, doc, how, k, got[k:k + 1], want[k:k + 1]))
    if error:
        return
    # One ID too many, in each position.
    s = ('$', len(m.ctx.tab) + 1)
    for v in (N('symbol', s), N('int', 1, s), ST((s, N('int', 1))), L(SX(N('symbol', s))), N('symbol', s, S), ann(ST(syms('x')), s)):
        try:
            m.ctx.resolve(v)
        except RefError:
            pass
        else:
            continue
        got, err = play(fmt, chunks + [render(fmt, v)], regs, False, True)
        rec.trans()
        if err is None:
            raise Violation('%s: %r followed by %r must be refused, reported %r' % (fmt, doc, v, got[len(want):]))
    if not regs:
        load(fmt, doc, want, rec)


def play(fmt, chunks, regs, late, tolerant):
    """-> (nodes reported, error). Events are evaluated as they come and again at the end, or only at the end."""
    b = D.B()
    cat = D.catalog(CAT)
    r = D.make('bm' if fmt[0] == 'b' else 'sm', cat)
    events, first = [], []
    send, k, flushed = b.NEXT, 0, 0
    err = None
    try:
        while True:
            e = r.send(send)
            send = b.NEXT
            et = e.event_type
            if et is b.INC or et is b.END:
                if k < len(chunks):
                    for name, v, texts in regs.get(k, ()):
                        cat.register(b.shared(name, v, list(texts)))
                    send = b.data(chunks[k])
                    k += 1
                    continue
                if et is b.INC:
                    if fmt[0] == 'b' or flushed > 2:
                        err = 'incomplete'
                        break
                    flushed += 1
                    continue
                break
            if not late:
                first.append(D.norm(e))
            events.append(e)
    except Exception as x:
        err = '%s: %s' % (type(x).__name__, x)
    t = EventTree()
    try:
        for k, e in enumerate(events):
            if not late and k < len(first) and D.norm(e) != first[k]:
                raise Mismatch('an event first read as %r later reads as %r' % (first[k], D.norm(e)))
            t.feed(e)
    except Mismatch as x:
        return [x], str(x) if err is None else err
    except Exception as x:
        return t.top, err or '%s: %s' % (type(x).__name__, x)
    if err is None and t.stack:
        err = 'open container'
    return t.top, err


def load(fmt, doc, want, rec):
    from .c07 import keys
    from ..model import from_py
    i = ion()
    rec.trans()
    vals = i.loads(doc, catalog=D.catalog(CAT), single_value=False)
    try:
        got = [from_py(v) for v in vals]
    except Mismatch as e:
        got = [e]
    from ..model import canon
    if [canon(keys(n)) for n in want] != [canon(n) for n in got]:
        raise Violation('%s: %r loads to %r, the model says %r' % (fmt, doc, got, want))


KINDS = {'history': history, 'large': history}


def g_histories(depth, tier):
    every = list(ITEMS)
    for d in range(1, depth + 1):
        if d <= 2:
            sets = [every] * d
        elif d == 3:
            sets = [FIRST, FIRST, every] if tier == 'quick' else [every] * 3
        elif d == 4:
            sets = [CORE] * 4 if tier == 'quick' else [FIRST, FIRST, FIRST, every]
        else:
            sets = [CORE] * d
        for h in product(*sets):
            yield h


LARGE = [1, 7, 54, 55, 63, 64, 65, 117, 118, 119, 127, 128, 129, 246, 247, 255, 256, 257, 500, 1015]


def g_large(tier):
    sizes = LARGE if tier == 'quick' else LARGE + list(range(100, 132)) + [2048, 4100]
    for n in sizes:
        for kind in ('new', 'pad', 'miss'):
            yield ((kind, n),)
            yield ((kind, n), 'app')
            yield ((kind, n), ('app', 300), 'app')
            yield ('new', (kind, n), 'new')
        yield ('new', ('app', n), 'app')
        yield ('imp', ('app', n), ('app', n))
    for n in (1500, 2038, 4086, 4096, 8191, 16373, 16374, 16375, 20000, 33000):
        for kind in ('new', 'pad', 'miss'):
            yield ((kind, n), 'app')
        yield ('new', ('app', n), 'new')
        if n < 9000:
            yield 'new', (('pad', 'new')[n % 2], n), 'app', ('app', n)


def jobs(tier):
    n = 16 if tier == 'quick' else 64
    return [('history', (f, i, n, tier)) for f in ('b', 't', 'ti') for i in range(n)] + [('large', (f, i, 8, tier)) for f in ('b', 't') for i in range(8)]


def cases(kind, args):
    f, i, n, tier = args
    if kind == 'large':
        for h in shard(g_large(tier), i, n):
            yield (f, h)
        return
    for h in shard(g_histories({'b': 4, 't': 3, 'ti': 2}[f] if tier == 'quick' else 6, tier), i, n):
        yield (f, h)
