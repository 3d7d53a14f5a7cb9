# -*- coding: utf-8 -*-
"""C22: explicit-state exploration of the reader input queue and the writer output tree."""
from itertools import product

from ..harness import Violation

PID = 'C22'
RULE = ('Queue: every sequence of operations to the depth (append segments of 0-3 units, read n, read a byte, put back, skip n, mark the end, iterate), for bytes and characters, against a model that is a list of units and a position; lengths, positions, refusals (too long reads, putting back '
        'at the start, wrong types) and the rest of the content are compared after each. Also every state of the model reachable in more steps, up to a bound of units, by its shortest history, with every operation from it. Tree: every sequence of '
        'open, add (0-3 bytes), close (header of 1-2 bytes), drain, with refusals; lengths of the open container after each operation and the bytes drained are compared with document order. Both at scale: queues of up to 4096 segments and 1 MB with every pair of operations at their boundaries, queues fed and emptied thousands of times, trees of up to 5000 nodes, 4 MB and 200 levels, drained repeatedly. State = distinct model state, transition = operation.')
ASSUMPTIONS = ['only the units read last are put back', 'multi-unit reads and skips do not cross an end mark', 'a drained buffer is drained to its end']

BYTES = [1, 4, 0, 255, 92, 10, 128, 65]
CHARS = ['a', '\x04', '\u00e9', '\U0001f600', '\\', '\u20ac', '\x00', "'"]


class Model(object):
    """units: everything ever appended, in order ('EOF' for an end mark); pos: how many were consumed."""

    def __init__(self, text):
        self.text = text
        self.units = []
        self.pos = 0
        self.k = 0
        self.segs = []       # lengths, for the state only
        self.floor = 0       # units before it cannot be put back: they were skipped or belong to a drained tail

    def size(self):
        return len(self.units) - self.pos

    def fresh(self, n):
        c = CHARS if self.text else BYTES
        out = [c[(self.k + j) % len(c)] for j in range(n)]
        self.k += n
        return out

    def ops(self):
        """Operations that are defined now."""
        n = self.size()
        ahead = self.units[self.pos:]
        eof = ahead.index('EOF') if 'EOF' in ahead else n
        out = [('extend', k) for k in (0, 1, 2, 3)] + [('eof',), ('bad',)]
        out += [('read', k) for k in range(0, min(eof, 4) + 1)]
        if eof == n:
            out += [('read', n + 1), ('read', n + 5)]
            if n > 4:
                out.append(('read', n))
            out += [('skip', k) for k in (0, 1, 2, n - 1, n, n + 2) if k >= 0]
        else:
            out += [('skip', k) for k in (0, 1, 2) if k <= eof]
        out.append(('byte',))
        if self.pos > 0 and self.units[self.pos - 1] != 'EOF':
            out.append(('unread',))
            if self.text:
                out.append(('unread', 'ord'))
        elif self.pos == 0:
            out.append(('unread0',))
        if n <= 4 and eof == n:
            out.append(('iter',))
        return sorted(set(out), key=repr)


def apply(q, m, op, rec, hist):
    """Applies an operation to both and compares."""
    name = op[0]

    def fail(what):
        raise Violation('%s after %r: %s' % (op, hist, what))
    if name == 'extend':
        u = m.fresh(op[1])
        q.extend(''.join(u) if m.text else bytes(u))
        m.units += u
    elif name == 'bad':
        for wrong in (b'a', bytearray(b'a'), None, 7) if m.text else ('a', None, 7, [1]):
            try:
                q.extend(wrong)
            except Exception:
                continue
            fail('accepts %r' % (wrong,))
    elif name == 'eof':
        q.mark_eof()
        m.units.append('EOF')
    elif name == 'read':
        n = op[1]
        if n > m.size():
            try:
                got = q.read(n)
            except IndexError:
                pass
            else:
                fail('gives %r where %d units are left' % (got, m.size()))
        else:
            got = q.read(n)
            want = m.units[m.pos:m.pos + n]
            if list(got) != want or (not isinstance(got, str) if m.text else isinstance(got, str)):
                fail('gives %r, must be %r' % (got, want))
            m.pos += n
    elif name == 'byte':
        if m.size() == 0:
            try:
                got = q.read_byte()
            except IndexError:
                pass
            else:
                fail('gives %r from an empty queue' % (got,))
        else:
            got = q.read_byte()
            want = m.units[m.pos]
            m.pos += 1
            if q.is_eof(got) != (want == 'EOF'):
                fail('gives %r, must be %r' % (got, want))
            if want != 'EOF' and got != (ord(want) if m.text else want):
                fail('gives %r, must be %r' % (got, want))
    elif name == 'unread':
        m.pos -= 1
        c = m.units[m.pos]
        q.unread(ord(c) if len(op) > 1 else c)
    elif name == 'unread0':
        try:
            q.unread('a' if m.text else 97)
        except IndexError:
            pass
        else:
            fail('accepted at the start')
    elif name == 'skip':
        n = op[1]
        want = max(0, n - m.size())
        got = q.skip(n)
        if got != want:
            fail('leaves %r to skip, must be %r' % (got, want))
        m.pos += n - want
    elif name == 'iter':
        got = list(q)
        want = [ord(u) if m.text else u for u in m.units[m.pos:]]
        if got != want:
            fail('iterates %r, must be %r' % (got, want))
        m.pos = len(m.units)
    if len(q) != m.size():
        fail('size %d, must be %d' % (len(q), m.size()))
    if q.position != m.pos:
        fail('position %d, must be %d' % (q.position, m.pos))
    rec.trans()


def drain(q, m, hist):
    """The rest of the content."""
    rest = m.units[m.pos:]
    for w in rest:
        g = q.read_byte()
        if q.is_eof(g) != (w == 'EOF') or w != 'EOF' and g != (ord(w) if m.text else w):
            raise Violation('after %r the rest is not %r: %r for %r' % (hist, rest, g, w))
    if len(q):
        raise Violation('after %r and reading the rest the size is %d' % (hist, len(q)))


def queue(payload, rec):
    """All histories with the given first operations, to the depth."""
    from amazon.ion.reader import BufferQueue
    text, prefix, depth = payload

    def replay(hist):
        q, m = BufferQueue(text), Model(text)
        for k, op in enumerate(hist):
            if op not in m.ops():
                return None, None
            apply(q, m, op, rec, hist[:k])
        return q, m

    def go(hist, left):
        q, m = replay(hist)
        if q is None:
            return
        nxt = m.ops()
        if m.k % 2 and m.size() or not left:
            drain(q, m, hist)
            if left:
                pass
        rec.n_states += 1
        if left:
            for op in nxt:
                go(hist + (op,), left - 1)
    go(tuple(prefix), depth - len(prefix))
    rec.trace()
    rec.outcome('text' if text else 'bytes')


def key(text, hist):
    """The model state that a history leads to, with the layout of segments the queue can be in."""
    m = Model(text)
    layout = []          # lengths of unread pieces; the first may be partly read
    off = 0
    for op in hist:
        if op not in m.ops():
            return None, None
        if op[0] == 'extend':
            m.units += m.fresh(op[1])
            if op[1]:
                layout.append(op[1])
        elif op[0] == 'eof':
            m.units.append('EOF')
            layout.append('E')
        elif op[0] in ('read', 'skip', 'byte'):
            n = 1 if op[0] == 'byte' else op[1]
            if n > m.size():
                if op[0] != 'skip':
                    continue
                n = m.size()
            m.pos += n
            while n:
                ln = 1 if layout[0] == 'E' else layout[0]
                t = min(n, ln - off)
                off += t
                n -= t
                if off == ln:
                    layout.pop(0)
                    off = 0
        elif op[0] == 'unread':
            m.pos -= 1
            if off:
                off -= 1
            else:
                layout.insert(0, 1)
        elif op[0] == 'iter':
            m.pos = len(m.units)
            layout, off = [], 0
    back = m.units[max(0, m.pos - 2):m.pos].count('EOF')
    return (tuple(layout), off, min(m.pos, 3), back), m


def reachable(text, depth, limit):
    """Shortest history of every state of the model within the bounds."""
    seen = {}
    front = [()]
    seen[key(text, ())[0]] = ()
    for _ in range(depth):
        nxt = []
        for h in front:
            _, m = key(text, h)
            for op in m.ops():
                if op[0] in ('bad', 'unread0') or op == ('read', m.size() + 5):
                    continue
                if op[0] in ('extend', 'eof') and m.size() >= limit:
                    continue
                k, _ = key(text, h + (op,))
                if k not in seen:
                    seen[k] = h + (op,)
                    nxt.append(h + (op,))
        front = nxt
    return list(seen.values())


def state(payload, rec):
    """Every operation, and every two operations, from a state."""
    from amazon.ion.reader import BufferQueue
    text, hist, two = payload

    def to(h):
        q, m = BufferQueue(text), Model(text)
        for k, op in enumerate(h):
            apply(q, m, op, rec, h[:k])
        return q, m
    q, m = to(hist)
    drain(q, m, hist)
    for op in to(hist)[1].ops():
        q, m2 = to(hist)
        apply(q, m2, op, rec, hist)
        nxt = m2.ops()
        drain(q, m2, hist + (op,))
        if two:
            for op2 in nxt:
                q, m3 = to(hist)
                apply(q, m3, op, rec, hist)
                apply(q, m3, op2, rec, hist + (op,))
                drain(q, m3, hist + (op, op2))
    rec.trace()
    rec.n_states += 1
    rec.outcome('state')


# -- the output tree -------------------------------------------------------------------------------------------------

TREE_OPS = [('open',), ('add', 0), ('add', 1), ('add', 3), ('close', 1), ('close', 2), ('drain',)]


def tree(payload, rec):
    """All histories with the given first operations."""
    from amazon.ion.writer_buffer import BufferTree
    prefix, depth = payload

    def run(hist):
        t = BufferTree()
        stack = [[]]      # lists of byte strings
        n = 0
        for k, op in enumerate(hist):
            h = hist[:k + 1]
            if op[0] == 'open':
                t.start_container()
                stack.append([])
            elif op[0] == 'add':
                b = bytes((n + j) % 256 for j in range(op[1]))
                n += op[1] + 1
                t.add_scalar_value(bytearray(b))
                stack[-1].append(b)
            elif op[0] == 'close':
                b = bytes((n + j) % 256 for j in range(op[1]))
                n += op[1] + 1
                if len(stack) == 1:
                    try:
                        t.end_container(bytearray(b))
                    except ValueError:
                        return None
                    raise Violation('%r: closing with nothing open is accepted' % (h,))
                t.end_container(bytearray(b))
                inner = stack.pop()
                stack[-1].append(b + b''.join(inner))
            else:
                if len(stack) > 1:
                    try:
                        got = list(t.drain())
                    except ValueError:
                        return None
                    raise Violation('%r: draining with an open container is accepted and gives %r' % (h, got))
                got = b''.join(bytes(x) for x in t.drain())
                if got != b''.join(stack[0]):
                    raise Violation('%r drains %r, must be %r' % (h, got, b''.join(stack[0])))
                stack = [[]]
            want = sum(len(x) for x in stack[-1])
            if t.current_container_length != want:
                raise Violation('%r: length %d, must be %d' % (h, t.current_container_length, want))
            rec.trans()
        if len(stack) == 1:
            got = b''.join(bytes(x) for x in t.drain())
            if got != b''.join(stack[0]):
                raise Violation('%r drains %r, must be %r' % (hist, got, b''.join(stack[0])))
        return stack

    def go(hist, left):
        if run(hist) is None:
            return
        rec.n_states += 1
        if left:
            for op in TREE_OPS:
                go(hist + (op,), left - 1)
    go(tuple(prefix), depth - len(prefix))
    rec.trace()
    rec.outcome('tree')


def nested(payload, rec):
    """Whole documents: every forest of n nodes, with leaf and header sizes assigned by position."""
    from amazon.ion.writer_buffer import BufferTree
    forest, a, b = payload
    t = BufferTree()
    n = [0]

    def put(f):
        total = b''
        for x in f:
            n[0] += 1
            if x == 'x':
                s = bytes([n[0] % 256]) * (a * n[0] % 5)
                t.add_scalar_value(bytearray(s))
                total += s
            else:
                t.start_container()
                inner = put(x)
                if t.current_container_length != len(inner):
                    raise Violation('%r: length %d of the contents, must be %d' % (payload, t.current_container_length, len(inner)))
                h = bytes([200 + n[0] % 50]) * (1 + b * n[0] % 4)
                t.end_container(bytearray(h))
                total += h + inner
            rec.trans()
        return total
    for _ in range(2):
        n[0] = 0
        want = put(forest)
        if t.current_container_length != len(want):
            raise Violation('%r: total length %d, must be %d' % (payload, t.current_container_length, len(want)))
        got = b''.join(bytes(x) for x in t.drain())
        if got != want:
            raise Violation('%r drains %r, must be %r' % (payload, got, want))
    rec.trace()
    rec.n_states += 1
    rec.outcome('document')


def forests(n):
    if n == 0:
        yield ()
        return
    for rest in forests(n - 1):
        yield ('x',) + rest
    for k in range(0, n):
        for inner in forests(k):
            for rest in forests(n - 1 - k):
                yield (inner,) + rest


# -- large contents ----------------------------------------------------------------------------------------------------

SIZES = [1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537]
UNITS = {False: bytes((j * 7 + j // 251) % 256 for j in range(1 << 17)), True: ''.join(chr(65 + (j * 7 + j // 251) % 60 + (0, 0, 0x100, 0x2000, 0x1f600)[j // 50 % 5]) for j in range(1 << 17))}


def content(text, n):
    u = UNITS[text]
    return (u * (n // len(u) + 1))[:n]


def layouts(tier):
    big = SIZES if tier == 'quick' else SIZES + [131071, 131072, 131073, 1 << 20, (1 << 21) + 1]
    for s in big + [1 << 20]:
        yield (s,)
        yield (1, s)
        yield (s, 1)
        yield (s, s)
        yield (3, s, 2)
    for k in (3, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 500, 1000, 1024, 4096) + ((10000, 65536) if tier != 'quick' else ()):
        yield (1,) * k
        yield (2, 1) * k
        if k < 1025:
            yield (100,) * k


def bulk(payload, rec):
    """A layout of large or many segments, and every sequence of operations at its boundaries."""
    from amazon.ion.reader import BufferQueue
    text, layout, depth, mark = payload
    total = sum(layout)
    extra = 5
    data = content(text, total + extra * depth)

    def start():
        q = BufferQueue(text)
        at = 0
        for n in layout:
            q.extend(data[at:at + n])
            at += n
        return q, [0, at]       # position, units appended

    def step(q, m, op, hist):
        def fail(what):
            raise Violation('%d segments of %d in all, the first of %d: %r after %r: %s' % (len(layout), total, layout[0], op, hist, what))
        name, n = op
        pos, end = m
        if name == 'extend':
            q.extend(data[end:end + n])
            m[1] += n
        elif name == 'read':
            if n > end - pos:
                try:
                    q.read(n)
                except IndexError:
                    n = 0
                else:
                    fail('accepted')
            else:
                got = q.read(n)
                if (got if text else bytes(got)) != data[pos:pos + n]:
                    fail('gives other content')
            m[0] += n
        elif name == 'skip':
            want = max(0, n - (end - pos))
            got = q.skip(n)
            if got != want:
                fail('leaves %r, must be %r' % (got, want))
            m[0] += n - want
        elif name == 'bytes':
            for j in range(min(n, end - pos)):
                got = q.read_byte()
                c = data[pos + j]
                if got != (ord(c) if text else c):
                    fail('unit %d is %r' % (pos + j, got))
                m[0] += 1
        elif pos:
            c = data[pos - 1]
            q.unread(c)
            m[0] -= 1
        if len(q) != m[1] - m[0] or q.position != m[0]:
            fail('size %d and position %d, must be %d and %d' % (len(q), q.position, m[1] - m[0], m[0]))
        rec.trans()
    marks = sorted(set(x for x in (1, layout[0] - 1, layout[0], layout[0] + 1, total // 2, total - 1, total) if 0 < x <= total))
    ops = [(name, x) for name in ('read', 'skip') for x in marks] + [('read', total + 1), ('skip', total + 2), ('extend', extra), ('unread', 1), ('bytes', 3)] + ([('bytes', layout[0])] if layout[0] < 5000 else [])
    for hist in product(ops, repeat=depth):
        q, m = start()
        for k, op in enumerate(hist):
            step(q, m, op, hist[:k])
        if mark:
            q.mark_eof()
        if total < 3000 and len(layout) < 300 and hist[-1][0] != 'bytes':
            rest = list(q)
            if mark and not (rest and q.is_eof(rest.pop())):
                raise Violation('%r after %r: no end mark' % (layout, hist))
            want = data[m[0]:m[1]]
            if rest != ([ord(c) for c in want] if text else list(want)):
                raise Violation('%r after %r: the rest is other content' % (layout, hist))
        else:
            got = q.read(m[1] - m[0])
            if (got if text else bytes(got)) != data[m[0]:m[1]]:
                raise Violation('%r after %r: the rest read is other content' % (layout, hist))
            if mark and not q.is_eof(q.read_byte()):
                raise Violation('%r after %r: no end mark' % (layout, hist))
        if len(q):
            raise Violation('%r after %r: not empty at the end' % (layout, hist))
        rec.n_states += 1
    rec.trace()
    rec.outcome('large queue')


def steady(payload, rec):
    """A queue that is fed and emptied, over and over."""
    from amazon.ion.reader import BufferQueue
    text, feed, take, back, turns = payload
    q = BufferQueue(text)
    data = content(text, feed * turns)
    pos = end = 0
    for t in range(turns):
        q.extend(data[end:end + feed])
        end += feed
        n = min(take, end - pos)
        if t % 3 == 0:
            got = q.read(n)
            ok = (got if text else bytes(got)) == data[pos:pos + n]
        elif t % 3 == 1:
            got = [q.read_byte() for _ in range(n)]
            ok = got == ([ord(c) for c in data[pos:pos + n]] if text else list(data[pos:pos + n]))
        else:
            ok = q.skip(n) == 0
        pos += n
        for _ in range(min(back, n)):
            pos -= 1
            q.unread(data[pos])
        if not ok or q.position != pos or len(q) != end - pos:
            raise Violation('turn %d of feeding %d and taking %d: wrong content, position or size' % (t, feed, take))
        rec.trans()
    got = q.read(end - pos)
    if (got if text else bytes(got)) != data[pos:end]:
        raise Violation('after %d turns of feeding %d and taking %d: the rest is other content' % (turns, feed, take))
    rec.trace()
    rec.n_states += turns
    rec.outcome('steady')


def bulktree(payload, rec):
    """A tree of large, many or deep nodes, drained several times."""
    from amazon.ion.writer_buffer import BufferTree
    shape, k, size, times = payload
    t = BufferTree()
    for turn in range(times):
        n = [turn]

        def scalar():
            n[0] += 1
            b = bytes([n[0] % 256, n[0] // 256 % 256])[:size] + bytes([n[0] % 253]) * (size - 2)
            t.add_scalar_value(bytearray(b))
            return b

        def container(inside):
            n[0] += 1
            h = bytes([n[0] % 251]) * (1 + n[0] % 11)
            t.start_container()
            b = inside()
            if t.current_container_length != len(b):
                raise Violation('%r: length %d of the contents, must be %d' % (payload, t.current_container_length, len(b)))
            t.end_container(bytearray(h))
            rec.trans()
            return h + b

        def many(what, k):
            return b''.join(what() for _ in range(k))
        if shape == 'flat':
            want = many(scalar, k)
        elif shape == 'wide':
            want = container(lambda: many(scalar, k)) + scalar()
        elif shape == 'containers':
            want = many(lambda: container(scalar), k)
        elif shape == 'inner':
            want = container(lambda: many(lambda: container(lambda: many(scalar, 2)), k) + scalar()) + scalar()
        elif shape == 'empties':
            want = container(lambda: many(lambda: container(bytes), k))
        else:
            # k levels with a scalar before and after on each
            seen, heads = [], []
            for _ in range(k):
                a = scalar()
                t.start_container()
                seen.append(a)
            inner = scalar()
            for _ in range(k):
                n[0] += 1
                h = bytes([n[0] % 251]) * (1 + n[0] % 11)
                if t.current_container_length != len(inner):
                    raise Violation('%r: length %d of the contents, must be %d' % (payload, t.current_container_length, len(inner)))
                t.end_container(bytearray(h))
                inner = seen.pop() + h + inner + scalar()
            want = inner
        if t.current_container_length != len(want):
            raise Violation('%r: total length %d, must be %d' % (payload, t.current_container_length, len(want)))
        got = b''.join(bytes(x) for x in t.drain())
        if got != want:
            raise Violation('%r, time %d: drains %d bytes that differ from the %d put in' % (payload, turn, len(got), len(want)))
        rec.n_states += 1
    rec.trace()
    rec.outcome('large document')


KINDS = {'queue': queue, 'state': state, 'tree': tree, 'nested': nested, 'bulk': bulk, 'steady': steady, 'bulktree': bulktree}


def first_ops(text, n):
    out = [()]
    for _ in range(n):
        out = [h + (op,) for h in out for op in key(text, h)[1].ops()]
    return out


def gen(name, tier):
    q = tier == 'quick'
    if name == 'queue':
        for text in (False, True):
            for p in first_ops(text, 2):
                yield text, p, 5 if q else 6
    elif name == 'state':
        for text in (False, True):
            for h in reachable(text, 8 if q else 11, 6 if q else 8):
                yield text, h, not q or len(h) < 7
    elif name == 'tree':
        for p in product(TREE_OPS, repeat=2):
            yield p, 7 if q else 9
    elif name == 'bulk':
        for text in (False, True):
            for l in layouts(tier):
                yield text, l, 1 if sum(l) > 300000 or len(l) > 1100 else 2 if q or len(l) > 100 or sum(l) > 5000 else 3, len(l) % 2
    elif name == 'steady':
        for text in (False, True):
            for feed in (1, 2, 7, 64, 1000):
                for take in (1, feed - 1, feed, feed + 1):
                    for back in (0, 1):
                        if take:
                            yield text, feed, take, back, (9000 if feed < 10 else 1200) * (1 if q else 8)
    elif name == 'bulktree':
        for shape in ('flat', 'wide', 'containers', 'inner', 'empties'):
            for k in (1, 13, 14, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000) + (() if q else (65535, 65537, 300000)):
                for size in (0, 1, 40):
                    yield shape, k, size, 2
            for size in (13, 14, 127, 128, 255, 256, 1024, 8191, 8192, 16384, 65535, 65536, 65537, 1 << 20, (1 << 21) + 1, 1 << 22):
                yield shape, 3, size, 2
            yield shape, 2, 3, 400
        for k in (1, 2, 10, 50, 63, 64, 65, 100, 127, 128, 129, 200) + (() if q else tuple(range(3, 200))):
            for size in (0, 1, 300):
                yield 'deep', k, size, 2
    else:
        for n in range(1, 8 if q else 10):
            for f in forests(n):
                yield f, 2, 3
                if n < 6:
                    for a in (0, 1, 3):
                        for b in (0, 1, 2):
                            yield f, a, b


def jobs(tier):
    out = []
    for name, n in (('queue', 24), ('state', 16), ('tree', 8), ('nested', 8), ('bulk', 24), ('steady', 8), ('bulktree', 16)):
        out += [(name, (name, tier, i, n)) for i in range(n)]
    return out


def cases(kind, args):
    name, tier, i, n = args
    for k, x in enumerate(gen(name, tier)):
        if k % n == i:
            yield x
