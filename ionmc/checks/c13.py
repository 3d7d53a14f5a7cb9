# -*- coding: utf-8 -*-
"""C13: explicit-state exploration of symbol tables and catalogs against a list model."""
from itertools import islice, product

from ..harness import Violation
from ..model import ion

PID = 'C13'
RULE = ('Tables: every way of constructing a table (local, shared; import lists from a pool of shared, substituted, placeholder, nested and local tables; symbol lists with '
        'repetitions, unknown symbols and system names), then every history of interning up to the depth; after each step all IDs, all texts, iteration, length, '
        'maximum ID and locations are compared with a list model, and all tables made are compared for equality. Catalogs: every history of registrations (new versions, replacements, other '
        'names, refused tables) up to the depth, after each step every import request (name, version, size) is resolved and the result observed in full. Large: every pair of table size and requested size from 0 to 4097, imported, interned into and appended to; every order of registering two versions out of 19 up to 10**20. State = distinct '
        '(construction, history) or catalog content, transition = operation.')
ASSUMPTIONS = ['symbol texts come from the enumerated alphabet', 'tables imported are not changed by other means afterwards']

SYS = ['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion_shared_symbol_table']
TEXTS = ['a', 'b', 'c', 'q', 'z', '', 'name', '$ion', 'e\u0301\U0001f600', 'A', '$1', '0']


class M(object):
    """Model of a table: tokens is the list of (text, location)."""

    def __init__(self, kind, name, version, sub, tokens):
        self.kind, self.name, self.version, self.sub, self.tokens = kind, name, version, sub, list(tokens)

    def key(self):
        return (self.kind, self.name, self.version, self.sub, tuple(self.tokens))

    def first(self, text):
        for k, (t, _) in enumerate(self.tokens, 1):
            if t == text:
                return k
        return None


def shared(name, version, texts, sub=False):
    return M('shared', name, version, sub, [(t, (name, k)) for k, t in enumerate(texts, 1)])


def local(imports, texts):
    tokens = [(t, ('$ion', k)) for k, t in enumerate(SYS, 1)]
    for m in imports:
        toks = m.tokens
        if m.kind == 'local':
            toks = toks[len(SYS):]
        tokens.extend(toks)
    tokens.extend((t, None) for t in texts)
    return M('local', None, None, False, tokens)


def build(spec):
    """spec -> (table, model). Spec: (kind, args...)."""
    S = ion().sym
    k = spec[0]
    if k == 'system':
        return S.SYSTEM_SYMBOL_TABLE, M('system', '$ion', 1, False, [(t, ('$ion', j)) for j, t in enumerate(SYS, 1)])
    if k == 'shared':
        _, name, version, imports, texts = spec
        subs = [build(s) for s in imports]
        t = S.shared_symbol_table(name, version, list(texts), imports=[x for x, _ in subs] if imports else None)
        return t, shared(name, version, [x for _, m in subs for x, _ in m.tokens] + list(texts))
    if k == 'local':
        _, imports, texts = spec
        subs = [build(s) for s in imports]
        t = S.local_symbol_table([x for x, _ in subs] if imports else None, list(texts))
        return t, local([m for _, m in subs], texts)
    if k == 'placeholder':
        _, name, version, n = spec
        return S.placeholder_symbol_table(name, version, n), shared(name, version, [None] * n, True)
    if k == 'substitute':
        _, base, version, n = spec
        t, m = build(base)
        texts = [x for x, _ in m.tokens]
        return S.substitute_symbol_table(t, version, n), shared(m.name, version, (texts + [None] * n)[:n], True)
    raise ValueError(spec)


def tok(t):
    loc = t.location
    return (t.text, t.sid, None if loc is None else (loc.name, loc.position))


def observe(t, m, what):
    """Compares everything a table shows with the model."""
    def bad(msg, *args):
        raise Violation('%s: %s' % (what, msg % args))
    n = len(m.tokens)
    want = [(text, k, loc) for k, (text, loc) in enumerate(m.tokens, 1)]
    if t.max_id != n or len(t) != n:
        bad('max_id %r, length %r for %d symbols', t.max_id, len(t), n)
    if (t.name, t.version, bool(t.is_substitute)) != (m.name, m.version, m.sub):
        bad('table is %r', (t.name, t.version, t.is_substitute))
    tt = t.table_type
    if (bool(tt.is_system), bool(tt.is_shared), bool(tt.is_local)) != (m.kind == 'system', m.kind != 'local', m.kind == 'local'):
        bad('table type %r', tt)
    got = [tok(x) for x in t]
    if got != want:
        bad('iterates %r, not %r', got, want)
    dflt = object()
    for k in range(-2, n + 3):
        g = t.get(k, dflt)
        if k == 0:
            ok = g is not dflt and g.text is None and g.sid == 0
        elif 1 <= k <= n:
            ok = g is not dflt and tok(g) == want[k - 1] and tok(t[k]) == want[k - 1]
        else:
            ok = g is dflt and t.get(k) is None
            try:
                t[k]
                ok = False
            except KeyError:
                pass
        if not ok:
            bad('get(%d) gives %r', k, g)
    for text in TEXTS:
        j = m.first(text)
        g = t.get(text, dflt)
        if j is None:
            ok = g is dflt and t.get(text) is None
            try:
                t[text]
                ok = False
            except KeyError:
                pass
        else:
            ok = g is not dflt and tok(g) == want[j - 1] and tok(t[text]) == want[j - 1]
        if not ok:
            bad('get(%r) gives %r', text, g)


def raises(exc, fn, *args, **kw):
    try:
        r = fn(*args, **kw)
    except exc:
        return
    except Exception as e:
        raise Violation('%s%r %r raises %s, not %s' % (getattr(fn, '__name__', fn), args, kw, type(e).__name__, exc))
    raise Violation('%s%r %r gives %r' % (getattr(fn, '__name__', fn), args, kw, r))


def table(payload, rec):
    spec, ops = payload
    t, m = build(spec)
    observe(t, m, repr(spec))
    held = []
    for k, op in enumerate(ops):
        if m.kind != 'local':
            raises(TypeError, t.intern, op)
        else:
            r = t.intern(op)
            j = m.first(op)
            if j is None:
                m.tokens.append((op, None))
                j = len(m.tokens)
            want = (op, j, m.tokens[j - 1][1])
            if tok(r) != want:
                raise Violation('%r: intern(%r) gives %r, not %r' % (spec, op, r, want))
            held.append((r, want))
        observe(t, m, '%r after interning %r' % (spec, ops[:k + 1]))
        for r, want in held:
            if tok(r) != want or tok(t.get(want[1])) != want:
                raise Violation('%r: the token of %r changed' % (spec, want))
        rec.trans()
    for bad in (b'x', 1, None, ('a',)):
        if m.kind == 'local':
            raises(TypeError, t.intern, bad)
    for bad in (b'x', 1.0, None, ('a',)):
        raises(TypeError, t.get, bad)
        raises(TypeError, t.__getitem__, bad)
    observe(t, m, repr(spec))
    if spec[0] in ('shared', 'local'):      # the imported tables are as before
        for s in spec[-2]:
            x, y = build(s)
            observe(x, y, 'import of %r' % (spec,))
    rec.state(payload)
    rec.trace()
    rec.outcome('%s %d' % (m.kind, len(m.tokens)))


def shared_imports(payload, rec):
    """Two local tables over the very same imported table objects do not disturb each other or the imports."""
    S = ion().sym
    imports, ops = payload
    subs = [build(s) for s in imports]
    ts = [S.local_symbol_table([x for x, _ in subs], ['q']) for _ in range(2)]
    ms = [local([m for _, m in subs], ['q']) for _ in range(2)]
    for which, text in ops:
        r = ts[which].intern(text)
        j = ms[which].first(text)
        if j is None:
            ms[which].tokens.append((text, None))
            j = len(ms[which].tokens)
        if tok(r) != (text, j, ms[which].tokens[j - 1][1]):
            raise Violation('%r: intern(%r) gives %r' % (payload, text, r))
        for t, m in list(zip(ts, ms)) + subs:
            observe(t, m, repr(payload))
        rec.trans()
    rec.state(payload)
    rec.trace()
    rec.outcome('shared imports')


def equal(payload, rec):
    """Tables are equal exactly when kind, name, version, substitution and symbols are."""
    i, n = payload
    specs = list(pool_specs())
    built = [build(s) for s in specs]
    again = [build(s) for s in specs]
    for a in range(i, len(specs), n):
        for b in range(len(specs)):
            want = built[a][1].key() == again[b][1].key()
            got, ne = built[a][0] == again[b][0], built[a][0] != again[b][0]
            if got != want or ne == want:
                raise Violation('%r == %r gives %r, != %r' % (specs[a], specs[b], got, ne))
            rec.trans()
        if built[a][0] == 1 or built[a][0] == None:     # noqa: E711
            raise Violation('%r equals a number or None' % (specs[a],))
    rec.state(payload)
    rec.outcome('equality')


def impossible(payload, rec):
    S = ion().sym
    SH, LO, SY = S.SHARED_TABLE_TYPE, S.LOCAL_TABLE_TYPE, S.SYSTEM_TABLE_TYPE
    T, sh = S.SymbolTable, S.shared_symbol_table
    ok = sh('x', 1, ['a'])
    lo = S.local_symbol_table([ok], ['b'])
    sub = S.substitute_symbol_table(ok, 2, 1)
    cat = S.SymbolTableCatalog()
    cat.register(ok)
    for name, version in ((None, 1), ('x', None), ('x', 0), ('x', -1), (None, None)):
        raises(ValueError, sh, name, version, ['a'])
    for name in (b'x', 1, ('x',)):
        raises(TypeError, sh, name, 1, ['a'])
    for syms in ([b'a'], [1], ['a', 2.0], [('a',)]):
        raises(TypeError, sh, 'x', 1, syms)
        raises(TypeError, S.local_symbol_table, None, syms)
    raises(ValueError, T, LO, [], name='x')
    raises(ValueError, T, LO, [], version=1)
    raises(ValueError, T, LO, [], name='x', version=1)
    raises(ValueError, T, SY, [], name='$ion', version=1, imports=[])
    raises(ValueError, T, SY, [], name='x', version=1)
    for v, n in ((0, 1), (-1, 1), (1, -1)):
        raises(ValueError, S.placeholder_symbol_table, 'x', v, n)
        raises(ValueError, S.substitute_symbol_table, ok, v, n)
        raises(ValueError, cat.resolve, 'x', v, n)
        raises(ValueError, cat.resolve, 'nope', v, n)
    raises(ValueError, S.substitute_symbol_table, lo, 1, 1)
    raises(ValueError, cat.register, S.SYSTEM_SYMBOL_TABLE)
    raises(ValueError, cat.register, lo)
    raises(ValueError, cat.register, sub)
    raises(ValueError, cat.register, S.placeholder_symbol_table('y', 1, 2))
    for name in (b'x', None, 1):
        raises(TypeError, cat.resolve, name, 1, 1)
    for v in (None, '1', 1.0):
        raises(TypeError, cat.resolve, 'x', v, 1)
    from amazon.ion.exceptions import IonException
    raises(IonException, cat.resolve, 'nope', 1, None)
    raises(IonException, cat.resolve, 'x', 2, None)
    r = cat.resolve('x', 1, None)
    observe(r, shared('x', 1, ['a']), 'resolve')
    raises(ValueError, cat.register, cat.resolve('x', 2, 3))
    raises(ValueError, S.SymbolToken, None, None)
    rec.trans(50)
    rec.state(payload)
    rec.outcome('impossible')


REG = [('A', 1, ()), ('A', 1, ('a',)), ('A', 1, ('b', 'c', None)), ('A', 2, ('a', 'b')), ('A', 3, ('a', 'b', 'a', 'q')), ('A', 10, ('a', 'z')),
       ('B', 2, ('a',)), ('B', 1, ('b', 'b')), ('x-sub',), ('x-local',), ('x-system',)]
REQ = [(n, v, k) for n in ('A', 'B', 'C', '') for v in (1, 2, 3, 4, 9, 10, 11) for k in (None, 0, 1, 2, 3, 4, 6)]


def expect(reg, name, version, max_id):
    """The model of resolution; None when impossible."""
    vs = dict((v, texts) for (n, v), texts in reg.items() if n == name)
    if not vs:
        return None if max_id is None else shared(name, version, [None] * max_id, True)
    if version in vs and max_id in (None, len(vs[version])):
        return shared(name, version, vs[version])
    if max_id is None:
        return None
    texts = list(vs[version] if version in vs else vs[max(vs)])
    return shared(name, version, (texts + [None] * max_id)[:max_id], True)


def catalog(payload, rec):
    from amazon.ion.exceptions import IonException
    S = ion().sym
    cat, reg = S.SymbolTableCatalog(), {}
    other = S.SymbolTableCatalog()      # stays empty
    held = []
    objs = {}
    for step in range(-1, len(payload)):
        if step >= 0:
            r = REG[payload[step]]
            if r[0] == 'x-sub':
                raises(ValueError, cat.register, S.placeholder_symbol_table('A', 1, 2))
            elif r[0] == 'x-local':
                raises(ValueError, cat.register, S.local_symbol_table(None, ['a']))
            elif r[0] == 'x-system':
                raises(ValueError, cat.register, S.SYSTEM_SYMBOL_TABLE)
            else:
                t = S.shared_symbol_table(r[0], r[1], list(r[2]))
                cat.register(t)
                reg[r[:2]] = r[2]
                objs[r[:2]] = t
        rec.state(tuple(sorted(reg.items())))
        for name, version, max_id in REQ:
            want = expect(reg, name, version, max_id)
            what = 'resolve(%r, %r, %r) in %r' % (name, version, max_id, reg)
            if want is None:
                raises(IonException, cat.resolve, name, version, max_id)
                continue
            got = cat.resolve(name, version, max_id)
            if not want.sub and got is not objs[(name, version)]:
                raise Violation('%s is not the registered table' % what)
            if step == len(payload) - 1:
                observe(got, want, what)
            elif tuple((x.text, x.sid) for x in got) != tuple((x, k) for k, (x, _) in enumerate(want.tokens, 1)) or bool(got.is_substitute) != want.sub or got.version != version:
                raise Violation('%s gives %r' % (what, [tok(x) for x in got]))
            held.append((got, want, what))
            rec.trans()
    for got, want, what in held[::7]:
        observe(got, want, 'held ' + what)
    raises(IonException, other.resolve, 'A', 1, None)
    observe(other.resolve('A', 1, 2), shared('A', 1, [None, None], True), 'another catalog')
    # Imported into a local table, positions are the requested ones.
    for name, version, max_id in (('A', 3, 3), ('B', 1, 4), ('A', 1, 1)):
        want, got = expect(reg, name, version, max_id), cat.resolve(name, version, max_id)
        observe(S.local_symbol_table([got, got], ['q']), local([want, want], ['q']), 'local table importing %r' % ((name, version, max_id),))
    rec.trace()
    rec.outcome('%d tables' % len(reg))


SIZES = [0, 1, 2, 7, 8, 9, 13, 14, 15, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 9000, 20000]
VERSIONS = [1, 2, 3, 9, 10, 11, 19, 99, 100, 101, 255, 256, 257, 1000, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 63, 10 ** 20]


def ends(t, n, what):
    """The tokens at both ends and around the powers of two."""
    if len(t) != n or t.max_id != n:
        raise Violation('%s: %d symbols, max_id %d, not %d' % (what, len(t), t.max_id, n))
    at = sorted(set(x for p in [0, n // 2, n] + [1 << k for k in range(14)] for x in (p - 1, p, p + 1, p + 2) if 1 <= x <= n))
    return [(k, t.get(k)) for k in at]


def large(payload, rec):
    """Tables and requested sizes of every pair of the sizes: resolved, imported before another, interned into."""
    n, k = payload
    S = ion().sym
    texts = ['u%d' % (j % 700) if j % 97 != 5 else None for j in range(n)]
    t = S.shared_symbol_table('big', 2, list(texts))
    cat = S.SymbolTableCatalog()
    cat.register(t)
    for version in (2, 1, 3):
        what = 'resolve(big, %d, %d) of a table of %d' % (version, k, n)
        got = cat.resolve('big', version, k)
        for j, x in ends(got, k, what):
            want = texts[j - 1] if j <= n else None
            if x is None or x.text != want or x.sid != j or x.location is None or (x.location.name, x.location.position) != ('big', j):
                raise Violation('%s: ID %d is %r, not %r' % (what, j, x, want))
        rec.trans()
    local = S.local_symbol_table([got, S.placeholder_symbol_table('none', 1, k), t], ['last', None, 'u0'])
    size = 9 + k + k + n + 3
    for j, x in ends(local, size, 'importing ' + what):
        p = j - 9
        if p <= 0:
            continue
        want = ((texts[p - 1] if p <= n else None) if p <= k else None if p <= 2 * k else texts[p - 2 * k - 1] if p <= 2 * k + n else ('last', None, 'u0')[p - 2 * k - n - 1])
        if x is None or x.text != want or x.sid != j:
            raise Violation('importing %s: ID %d is %r, not %r' % (what, j, x, want))
    for j, text in ((0, 'fresh'), (1, 'fresh'), (1, 'last'), (1, 'fresh2')):
        x = local.intern(text)
        want = {'fresh': size + 1, 'last': size - 2, 'fresh2': size + 2}[text]
        if x.sid != want or x.text != text or local[text].sid != want or local[want].text != text:
            raise Violation('importing %s: %r is interned as %r, not ID %d' % (what, text, x, want))
    appended = S.local_symbol_table([local], ['more'])
    if len(appended) != size + 3 or appended['more'].sid != size + 3 or appended['fresh2'].sid != size + 2 or appended.get(size + 4) is not None:
        raise Violation('appending to the table importing %s: %d symbols, %r' % (what, len(appended), appended['more']))
    rec.state(payload)
    rec.trace()
    rec.trans(5)
    rec.outcome('large')


def versions(payload, rec):
    """Registered in this order; the newest one stands in for those that are not."""
    S = ion().sym
    cat = S.SymbolTableCatalog()
    for j, v in enumerate(payload):
        cat.register(S.shared_symbol_table('v', v, ['of %d' % v, 'x']))
        for w in sorted(set(x for u in payload for x in (u - 1, u, u + 1) if x > 0)):
            have = w in payload[:j + 1]
            use = w if have else max(payload[:j + 1])
            got = cat.resolve('v', w, 2)
            if got[1].text != 'of %d' % use or got.version != w or bool(got.is_substitute) == have:
                raise Violation('with the versions %r, version %d is resolved to %r' % (payload[:j + 1], w, got[1]))
            rec.trans()
    rec.state(payload)
    rec.trace()
    rec.outcome('versions')


KINDS = {'large': large, 'versions': versions, 'table': table, 'equal': equal, 'impossible': impossible, 'catalog': catalog, 'shared_imports': shared_imports}

T1 = ('shared', 'T1', 1, (), ('a', 'b'))
T2 = ('shared', 'T2', 3, (), ('b', None, 'name', 'a', 'b'))
POOL = [T1, T2, ('shared', 'T0', 1, (), ()), ('placeholder', 'T1', 2, 3), ('substitute', T2, 5, 7), ('substitute', T2, 1, 2), ('shared', 'N', 1, (T1, T2), ('z', 'a')),
        ('local', (T2,), ('q', 'a', None)), ('shared', '$ion_x', 1, (), ('a', 'c')), ('local', (('shared', '$ion_1_0', 2, (), ('c', None)), T1), ('a',)), ('local', (), ('c',)), ('substitute', ('placeholder', 'T1', 2, 3), 1, 4)]
SYMS = [(), ('a',), ('c', 'a', 'c'), (None, 'b'), ('name', '$ion'), ('', '$1', 'A')]


def pool_specs():
    for s in POOL:
        yield s
    yield ('system',)
    for texts in SYMS:
        yield ('local', (), texts)
        yield ('local', (T1,), texts)
        for name, version in (('T1', 1), ('T1', 2), ('T', 1)):
            yield ('shared', name, version, (), texts)
    for n in range(4):
        yield ('placeholder', 'T1', 1, n)
        yield ('substitute', T1, 1, n)
        yield ('substitute', T1, 2, n)
        yield ('shared', 'T1', 1, (), ('a', 'b', 'c')[:n])
        yield ('shared', 'T1', 1, (), (None,) * n)
    for n in (127, 128, 255, 256, 300):
        yield ('placeholder', 'T1', 1, n)
        yield ('shared', 'T1', 1, (), tuple('u%d' % (j // 2) for j in range(n)) + ('a',))
        yield ('local', (('placeholder', '\u00e9', 1, n), T1), tuple('u%d' % (j // 2) for j in range(n)) + ('a', 'q'))
    yield ('local', (T1, T2), ())
    yield ('local', (T2, T1), ())
    yield ('local', (('shared', 'T1', 7, (), ('a', 'b')),), ())


def jobs(tier):
    q = tier == 'quick'
    out = [('table', (3 if q else 4, i, 24)) for i in range(24)]
    out += [('catalog', (4 if q else 5, i, 24)) for i in range(24)]
    out += [('equal', (4,)), ('impossible', ()), ('shared_imports', (4 if q else 5, 0, 1))]
    out += [('large', (i, 16)) for i in range(16)] + [('versions', (2 if q else 3, i, 4 if q else 16)) for i in range(4 if q else 16)]
    return out


def cases(kind, args):
    if kind == 'large':
        for c in islice(product(SIZES, SIZES), args[0], None, args[1]):
            yield c
        return
    if kind == 'versions':
        for c in islice(((a,) + b for d in range(1, args[0]) for a in VERSIONS for b in product(VERSIONS, repeat=d) if len(set((a,) + b)) == d + 1), args[1], None, args[2]):
            yield c
        return
    if kind == 'equal':
        for i in range(args[0]):
            yield (i, args[0])
        return
    if kind == 'impossible':
        yield ()
        return
    depth, i, n = args
    k = 0
    if kind == 'table':
        words = ('a', 'c', 'name', '', 'z', 'e\u0301\U0001f600')
        for imports in [()] + [(p,) for p in POOL] + [(p, r) for p in POOL for r in POOL]:
            for texts in SYMS:
                for spec in (('local', imports, texts), ('shared', 'S', 1, imports, texts)):
                    for ops in product(words, repeat=depth if spec[0] == 'local' else 1):
                        k += 1
                        if k % n == i:
                            yield spec, ops
        for spec in pool_specs():
            if spec[0] not in ('local', 'shared'):
                for op in words:
                    k += 1
                    if k % n == i:
                        yield spec, (op,)
    elif kind == 'catalog':
        for d in range(depth + 1):
            for h in product(range(len(REG)), repeat=d):
                k += 1
                if k % n == i:
                    yield h
    elif kind == 'shared_imports':
        for imports in ((T1,), (T2, T1), (POOL[6],), (POOL[7], T1), (POOL[3],)):
            for ops in product([(w, t) for w in (0, 1) for t in ('c', 'a', 'z')], repeat=depth):
                yield imports, ops
