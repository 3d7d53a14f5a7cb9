# -*- coding: utf-8 -*-
"""C18: a controlled scheduler runs several readers and writers in every interleaving of their steps."""
import ast
import os
import signal
from itertools import product

from .. import drive as D
from ..harness import Violation
from ..model import ion, to_py, to_events, from_py, canon, N, L, SX, ST, F, ann
from .c01 import TABLES, get_imports

TABLES.setdefault('s1', (('s', 1, ('a',)),))

PID = 'C18'
RULE = ('Scripts of readers (text from str and bytes, binary, raw and managed, failing, abandoned, skipping) and writers (text, pretty, binary, with shared import tables and shared events, failing) are run two and three at a time. '
        'Every interleaving of their steps in groups, and every schedule at the granularity of single sends with a bounded number of switches, is executed on the real instances; what each '
        'instance reports at every step, and its events looked into at the end, must be what a fresh process gives for the script alone. Whole operations (loads, dumps, failing ones, equality, conversion) are run after one another in every ordered pair and inside '
        'one another at every read or write call of a file. Operations failing in every place (values that cannot be written of every kind in every position, every event refused, a rich document cut or changed at every byte, readers left unfinished) are each followed by others, which must give what they give alone. Documents with imports are read one after another with one catalog, with tables registered in between; catalogs and import tables that differ in what the same name, version and size stand for are used in every ordered pair. Every batch of schedules runs in a child forked from a process that has not run the code before, and the scripts alone in one child each. State = distinct (scripts, positions), transition = step executed.')
ASSUMPTIONS = ['instances are used alternately, not from threads at the same time', 'shared values are not modified while they are used']

CAT = {'t1': {1: ['a', 'b', 'zz', '+'], 2: ['b', None, 'a', 'a']}, '\u00e9t': {3: ['a', 'name', 'z', 'x', '']}}


IVM = b'\xe0\x01\x00\xea'


def lst(*texts):
    body = b''.join(bytes([0x80 | len(t)]) + t for t in texts)
    syms = bytes([0xb0 | len(body)]) + body
    st = b'\x87' + syms
    st = bytes([0xd0 | len(st)]) + st
    inner = b'\x81\x83' + st
    return bytes([0xe0 | len(inner)]) + inner


def app(*texts):
    body = b''.join(bytes([0x80 | len(t)]) + t for t in texts)
    st = b'\x86\x71\x03' + b'\x87' + bytes([0xb0 | len(body)]) + body
    st = bytes([0xd0 | len(st)]) + st
    inner = b'\x81\x83' + st
    return (b'\xee' + bytes([0x80 | len(inner)]) if len(inner) > 13 else bytes([0xe0 | len(inner)])) + inner


SCRIPTS = {
    # name: ('r', mode, document, cuts, skip at the n-th container start)
    'ts1': ('r', 's', "a::{f:[1,'b'],g:\"x\"} 'q' ", (7, 14), ()),
    'ts2': ('r', 's', "a::{f:(-1 b),g:'''y'''} null.int ", (5, 20), ()),
    'tt1': ('r', 't', "'\u00e9'::\"\u20ac\\u20ac\" {{aGk=}} 1.50 ", (1, 6), ()),
    'tt2': ('r', 't', "'''a''' '''b''' 2000-01-01T00:00:00.120Z 1e3 ", (9, 30), ()),
    'tskip': ('r', 's', '[1,[2,3]] {a:(b)} 5 ', (4,), (0, 2)),
    'tm1': ('r', 'sm', '$ion_symbol_table::{symbols:["a","b"]} $10::$11 ', (30,), ()),
    'tm2': ('r', 'tm', '$ion_symbol_table::{symbols:["b","c"]} {$10:$11} ', (41,), ()),
    'tmi': ('r', 'sm', '$ion_symbol_table::{imports:[{name:"t1",version:2,max_id:4}],symbols:["q"]} $10 $14 $12 ', (50,), ()),
    'tmi1': ('r', 'sm', '$ion_symbol_table::{imports:[{name:"t1",version:1,max_id:6}],symbols:["q"]} $10 $16 $15 ', (50,), ()),
    'tmu': ('r', 'sm', '$ion_symbol_table::{imports:[{name:"u",version:1,max_id:2}],symbols:["q"]} $10 $12 ', (50,), ()),
    'tmu0': ('r', 'sm', '$ion_symbol_table::{imports:[{name:"u",version:1}],symbols:["q"]} $10 $12 ', (50,), ()),
    'tbad': ('r', 's', '{a:[1,}', (5,), ()),
    'tbad2': ('r', 't', '"\\q" 1 ', (2,), ()),
    'thalf': ('r', 's', 'a::{b:"unfinished', (9,), ()),
    'tclob': ('r', 's', "{{'''a\\x41''' '''b'''}} {{\"c\"}} ", (8,), ()),
    'b1': ('r', 'b', IVM + b'\xb4\x21\x01\x71\x04\xd3\x84\x81a' + b'\x48\x3f\xf8\0\0\0\0\0\0', (6, 12), ()),
    'b2': ('r', 'b', IVM + b'\x52\xc2\x05\x64\x80\x0f\xd0\x81\xe4\x81\x84\x21\x07\x8e\x81x', (7, 13), ()),
    'bskip': ('r', 'b', IVM + b'\xb4\xb2\x21\x01\x20\xd3\x84\x21\x02\x21\x05', (6,), (0, 1)),
    'bm1': ('r', 'bm', IVM + lst(b'a', b'b') + b'\x71\x0a\xe4\x81\x8b\x71\x0a', (8,), ()),
    'bm2': ('r', 'bm', IVM + lst(b'b', b'c') + b'\x71\x0a' + app(b'd') + b'\x71\x0c', (10, 20), ()),
    # The same IDs in tables of the same size.
    'bma': ('r', 'bm', IVM + lst(b'a', b'b') + b'\xe5\x82\x8a\x8b\x71\x0a\xd3\x8a\x71\x0b', (22,), ()),
    'bmb': ('r', 'bm', IVM + lst(b'c', b'd') + b'\xe5\x82\x8a\x8b\x71\x0a\xd3\x8a\x71\x0b', (22,), ()),
    'tma': ('r', 'sm', '$ion_symbol_table::{symbols:["a","b"]} $10::$11::$10 {$10:$11} ', (41,), ()),
    'tmb': ('r', 'sm', '$ion_symbol_table::{symbols:["c","d"]} $10::$11::$10 {$10:$11} ', (41,), ()),
    'bmi': ('r', 'bm', None, (9,), ()),
    'bmx': ('r', 'bm', IVM + b'\x71\x09\x71\x0a', (5,), ()),
    'bbad': ('r', 'b', IVM + b'\x20\xb2\xf1\x20\x21\x01', (5,), ()),
    'bbad2': ('r', 'bm', IVM + b'\x71\x63\x21\x01', (5,), ()),
    'bhalf': ('r', 'b', IVM + b'\xb8\x21\x01\x86abc', (6,), ()),
    # name: ('w', writer, events)
    'wt1': ('w', 'text', 'A'), 'wt2': ('w', 'text', 'B'), 'wp': ('w', 'pretty', 'A'), 'wb1': ('w', 'bin', 'A'), 'wb2': ('w', 'bin', 'B'), 'wbseg': ('w', 'bin', 'C'),
    'wbi1': ('w', 'bin-t2', 'A'), 'wbi2': ('w', 'bin-t2', 'D'), 'wbi3': ('w', 'bin-t1', 'D'), 'wtbad': ('w', 'text', 'X'), 'wbbad': ('w', 'bin', 'X'), 'wbibad': ('w', 'bin-t2', 'X'),
    'wbs1': ('w', 'bin-s1', 'E'), 'wbs2': ('w', 'bin-s1', 'F'), 'wthalf': ('w', 'text', 'H'), 'wbhalf': ('w', 'bin', 'H'), 'wsc': ('w', 'text', 'S'), 'wbsc': ('w', 'bin', 'S'),
}

EVENTS = {
    'A': [ST(('f', L(N('int', 1), N('symbol', 'a'))), ('a', N('string', 'x', 'b'))), N('symbol', 'q'), '.'],
    'B': [SX(N('symbol', '-'), N('int', 1), N('symbol', 'b', 'c')), N('string', 'y', 'f'), '.'],
    'C': [N('symbol', 'a'), '.', L(N('symbol', 'b', 'a')), '.', N('symbol', 'a'), '.'],
    'D': [ST(('z', N('symbol', 'w'))), N('symbol', 'a', 'b', ''), N('symbol', 'w'), '.'],
    'E': [N('symbol', 'x'), '.'],
    'F': [N('symbol', 'y', 'a'), '.'],
    'X': [L(N('int', 1), N('symbol', 'xx')), '!', N('int', 2)],
    'H': [N('symbol', 'a'), '[', N('symbol', 'h')],
    'S': [F(1.5), N('decimal', (1, 15, -1)), N('timestamp', ('s', 2000, 1, 1, 1, 2, 3, (100, 3), 0)), N('blob', b'\x00\xff'), N('clob', b'"'), N('int', -2 ** 64), N('bool', True), N('int'), '.'],
}


def doc_of(name):
    if name == 'bmi':
        # $ion_symbol_table::{imports:[{name:"t1",version:2,max_id:4}],symbols:["q"]}
        imp = b'\x84\x82t1\x85\x21\x02\x88\x21\x04'
        imp = bytes([0xd0 | len(imp)]) + imp
        st = b'\x86' + bytes([0xb0 | len(imp)]) + imp if len(imp) < 14 else b'\x86\xbe' + bytes([0x80 | len(imp)]) + imp
        st += b'\x87\xb2\x81q'
        st = b'\xde' + bytes([0x80 | len(st)]) + st
        inner = b'\x81\x83' + st
        return IVM + b'\xee' + bytes([0x80 | len(inner)]) + inner + b'\x71\x0a\x71\x0e\x71\x0c'
    return SCRIPTS[name][2]


# What the instances share, made once per process.
_SHARED = {}


def shared(key, make):
    if key not in _SHARED:
        _SHARED[key] = make()
    return _SHARED[key]


def event_list(code):
    def make():
        i = ion()
        E, T, IonEvent = i.core.IonEventType, i.core.IonType, i.core.IonEvent
        out = []
        for n in EVENTS[code]:
            if n == '.':
                out.append(i.core.ION_STREAM_END_EVENT)
            elif n == '!':
                out.append(IonEvent(E.SCALAR, T.STRING, 1))
            elif n == '[':
                out.append(IonEvent(E.CONTAINER_START, T.LIST))
            else:
                out += to_events(n)
        return out
    return shared(('ev', code), make)


def writer_of(kind):
    if kind[:3] == 'bin':
        from amazon.ion.writer_binary import binary_writer
        return binary_writer(get_imports(kind[4:] or 'none')[0])
    from amazon.ion.writer_text import text_writer
    return text_writer(indent='  ') if kind == 'pretty' else text_writer()


def reader_steps(name, keep):
    _, mode, doc, cuts, skips = SCRIPTS[name]
    b = D.B()
    doc = D.encode(mode, doc_of(name))
    chunks = D.cut(doc, cuts)
    r = D.make(mode, shared('cat', lambda: D.catalog(CAT)))
    k, starts, flushed = 0, 0, False
    send = b.NEXT
    while True:
        try:
            e = r.send(send)
            send = b.NEXT
            out = e.event_type.name if e.event_type.is_stream_signal else D.norm(e)
        except Exception as x:
            yield 'error ' + type(x).__name__
            return
        if e.event_type.is_stream_signal:
            yield out
            if k < len(chunks):
                send = b.data(chunks[k])
                k += 1
            elif mode[0] != 'b' and out == 'INCOMPLETE' and not flushed:
                flushed = True
            else:
                return
        else:
            keep.append(e)
            if e.event_type is b.CSTART:
                if starts in skips:
                    send = b.SKIP
                starts += 1
            yield out


def writer_steps(name, keep):
    from amazon.ion.writer import WriteEventType as W
    w = writer_of(SCRIPTS[name][1])
    for e in event_list(SCRIPTS[name][2]):
        while True:
            try:
                r = w.send(e)
            except Exception as x:
                yield 'error ' + type(x).__name__
                return
            keep.append(r)
            yield (r.type.name, bytes(r.data))
            if r.type is not W.HAS_PENDING:
                break
            e = None


def steps(name, keep):
    return reader_steps(name, keep) if SCRIPTS[name][0] == 'r' else writer_steps(name, keep)


def late(name, keep):
    if SCRIPTS[name][0] == 'r':
        return [D.norm(e) for e in keep]
    return [(r.type.name, bytes(r.data)) for r in keep]


def shared_state():
    """What may be shared and must not change."""
    i = ion()
    out = []
    for opt in ('t1', 't2', 's1'):
        for t in get_imports(opt)[0]:
            out.append((t.name, t.version, t.max_id, [None if s is None else (s.text, s.sid) for s in t]))
    return out


def alone(name):
    keep = []
    seq = list(steps(name, keep))
    return seq, late(name, keep)


# -- processes ---------------------------------------------------------------------------------------------------

def in_child(fn, *args):
    """Calls fn in a forked child; -> its (literal) result. When fn is a generator function, its items are counted as
    progress by on_item, and the last one is the result."""
    return child(fn, args, None)


def child(fn, args, on_item):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(rd)
            try:
                out = fn(*args)
                if on_item is not None:
                    for item in out:
                        os.write(wr, b'.')
                    out = item
                out = ('ok', out)
            except Violation as e:
                out = ('violation', str(e))
            except BaseException as e:
                import traceback
                out = ('crash', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            data = repr(out).encode('utf-8')
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    got = b''
    try:
        while True:
            part = os.read(rd, 65536)
            if not part:
                break
            if on_item is not None:
                while part[:1] == b'.' and not got:
                    part = part[1:]
                    on_item()
            got += part
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    if not got:
        raise Violation('the process died')
    tag, res = ast.literal_eval(got.decode('utf-8'))
    if tag == 'violation':
        raise Violation(res)
    if tag == 'crash':
        raise Violation('unexpected ' + res)
    return res


_ALONE = {}


def solo(name):
    if name not in _ALONE:
        _ALONE[name] = in_child(alone, name)
    return _ALONE[name]


# -- schedules ---------------------------------------------------------------------------------------------------

def interleavings(counts):
    """Every order in which instances with the given numbers of steps can run."""
    if not any(counts):
        yield ()
        return
    for k, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[k] -= 1
            for s in interleavings(rest):
                yield (k,) + s


def switches(n, m, bound):
    """Schedules of two instances with n and m steps as runs [(instance, steps)], with at most the bound of switches;
    an instance may be left unfinished."""
    for first in (0, 1):
        for k in range(1, bound + 2):
            # k runs, alternating; each at least one step; the last one goes to its end.
            sizes = [n, m]
            who = [(first + j) % 2 for j in range(k)]

            def go(j, left):
                if j == k:
                    yield ()
                    return
                w = who[j]
                # An instance that runs again later keeps at least one step for every later run.
                later = sum(1 for x in who[j + 1:] if x == w)
                if later:
                    choices = range(1, left[w] - later + 1)
                elif j >= k - 1:
                    choices = [left[w]]
                else:
                    choices = range(1, left[w] + 1)       # abandoned after this run when it is not all
                for c in choices:
                    nl = list(left)
                    nl[w] -= c
                    for rest in go(j + 1, nl):
                        yield ((w, c),) + rest
            for s in go(0, sizes):
                yield s


def execute(names, runs, want, close):
    keeps = [[] for _ in names]
    gens = [steps(n, k) for n, k in zip(names, keeps)]
    pos = [0] * len(names)
    total = 0
    for w, c in runs:
        for _ in range(c):
            got = next(gens[w])
            total += 1
            if got != want[w][0][pos[w]]:
                raise Violation('%r in the schedule %r: step %d of instance %d gives %r, alone %r' % (names, runs, pos[w], w, got, want[w][0][pos[w]]))
            pos[w] += 1
    for w, k in enumerate(keeps):
        got = late(names[w], k)
        if got != want[w][1][:len(k)]:
            raise Violation('%r in the schedule %r: at the end, the events of instance %d are %r, alone %r' % (names, runs, w, got, want[w][1]))
    if close:
        for g in gens:
            g.close()
    return total


def schedules(names, mode, bound, want):
    n = [len(w[0]) for w in want]
    if mode == 'all':
        # Steps in at most `bound` groups per instance.
        groups = []
        for k in n:
            g = min(k, bound)
            cuts = [k * j // g for j in range(g + 1)]
            groups.append([cuts[j + 1] - cuts[j] for j in range(g)])
        for order in interleavings([len(g) for g in groups]):
            at = [0] * len(n)
            runs = []
            for w in order:
                runs.append((w, groups[w][at[w]]))
                at[w] += 1
            yield runs
    else:
        for s in switches(n[0], n[1], bound):
            yield list(s)


def run_pair(names, mode, bound, want):
    count = total = 0
    before = repr(shared_state())
    for runs in schedules(names, mode, bound, want):
        total += execute(names, runs, want, count % 2)
        count += 1
    if repr(shared_state()) != before:
        raise Violation('%r: the shared tables have changed from %s to %s' % (names, before, shared_state()))
    # And alone again, afterwards.
    for n, w in zip(names, want):
        if alone(n) != tuple(w) and list(alone(n)) != list(w):
            raise Violation('%r: afterwards %s alone gives %r, at first %r' % (names, n, alone(n), w))
    return count, total


def run_pairs(mode, bound, i, n):
    count = total = 0
    for names in pairs(mode)[i::n]:
        c, t = run_pair(names, 'switch' if mode == 'switch' else 'all', bound, [_ALONE[x] for x in names])
        count += c
        total += t
        yield count, total


def pairs(mode):
    if mode == 'three':
        return [c for c in product(TRIPLE, repeat=3) if c[0] <= c[1] <= c[2]]
    names = sorted(SCRIPTS)
    return [(a, b) for a in names for b in names if a <= b]


def pair(payload, rec):
    """One child runs a batch of pairs (or triples), one after the other."""
    mode, bound, i, n = payload
    for x in SCRIPTS:
        solo(x)

    def on_item():
        rec.evals += 1
    count, total = child(run_pairs, payload, on_item)
    rec.trans(total)
    rec.trace(count)
    rec.count('schedules', count)
    rec.n_states += count
    rec.outcome(mode)


# -- whole operations ---------------------------------------------------------------------------------------------

class File(object):
    """A file that calls back at the n-th read or write."""

    def __init__(self, data, size, at, fn):
        self.data, self.size, self.at, self.fn, self.n, self.pos = data, size, at, fn, 0, 0
        self.out = []

    def hook(self):
        if self.n == self.at and self.fn is not None:
            fn, self.fn = self.fn, None
            fn()
        self.n += 1

    def read(self, n=-1):
        self.hook()
        k = min(self.size, n) if n >= 0 else len(self.data)
        d = self.data[self.pos:self.pos + k]
        self.pos += len(d)
        return d

    def seek(self, n, *a):
        self.pos = n

    def tell(self):
        return self.pos

    def write(self, d):
        self.hook()
        self.out.append(d)
        return len(d)

    def flush(self):
        pass


VALUES = {
    'V3': [N('symbol', 'x')],
    'V4': [N('symbol', 'a', 'y')],
    'V1': [ST(('f', L(N('int', 1), N('symbol', 'a'))), ('a', N('string', 'x', 'b'))), N('symbol', 'q')],
    'V2': [SX(N('symbol', 'b'), F(-0.0), N('decimal', (0, 100, -1)), N('timestamp', ('s', 2000, 1, 1, 1, 2, 3, (100, 3), 60))), N('symbol', 'zz', 'a')],
}


def vals(k):
    return shared(('vals', k), lambda: [to_py(n) for n in VALUES[k]])


def shown(vs):
    return [canon(from_py(x)) for x in vs]


def op_load(doc, size, **kw):
    def go(hook):
        i = ion()
        d = doc_of(doc[1:]) if doc[0] == '@' else doc
        if isinstance(d, str) and kw.get('enc'):
            d = d.encode('utf-8')
        at, fn = hook
        if not isinstance(d, bytes) and not kw.get('text'):
            d = d.encode('utf-8')
        f = File(d, size, at, fn)
        return shown(i.load(f, catalog=shared('cat', lambda: D.catalog(CAT)), single_value=False)), f.n
    return go


def op_dump(k, binary, opt, **kw):
    def go(hook):
        i = ion()
        at, fn = hook
        f = File(b'', 1, at, fn)
        o = dict(kw)
        if opt != 'none':
            o['imports'] = get_imports(opt)[0]
        i.dump(vals(k), f, binary=binary, sequence_as_stream=True, **o)
        return [x if isinstance(x, str) else bytes(x) for x in [(b'' if binary else type(f.out[0])()).join(f.out)]], f.n
    return go


def op_dump_bad(binary, opt='none'):
    def go(hook):
        i = ion()
        at, fn = hook
        f = File(b'', 1, at, fn)
        o = {'imports': get_imports(opt)[0]} if opt != 'none' else {}
        try:
            i.dump([vals('V1')[0], object()], f, binary=binary, sequence_as_stream=True, **o)
        except Exception as x:
            return 'error ' + type(x).__name__, f.n
        return 'accepted', f.n
    return go


def op_load_bad(doc, size):
    good = op_load(doc, size)

    def go(hook):
        try:
            return good(hook)
        except Exception as x:
            return 'error ' + type(x).__name__, 0
    return go


def op_equals(a, b):
    def go(hook):
        i = ion()
        return [i.ion_equals(x, y) for x in vals(a) for y in vals(b)], 0
    return go


def op_symbols(hook):
    i = ion()
    t = i.sym.local_symbol_table(get_imports('t2')[0])
    out = [t.intern(x).sid for x in ('new', 'a', '', 'new2', 'name')]
    c = i.sym.SymbolTableCatalog()
    c.register(i.sym.shared_symbol_table('t1', 1, ['one']))
    s = c.resolve('t1', 1, 3)
    return out + [t.max_id, s.max_id, [None if x is None else x.text for x in s], i.sym.SYSTEM_SYMBOL_TABLE.max_id], 0


OPS = {
    'l-t': op_load("$ion_1_0 a::{f:[1,'b',1.50],g:\"x\"} 'q' 2000-01-01T00:00:00.10Z {{aGk=}} ", 5),
    'l-t-lst': op_load('$ion_symbol_table::{symbols:["a","b"]} {$10:$11} $ion_1_0 name ', 7),
    'l-t-lst2': op_load('$ion_symbol_table::{symbols:["c","a"]} {$10:$11} ', 7),
    'l-t-imp': op_load('@tmi', 9),
    'l-b': op_load('@b1', 3), 'l-b2': op_load('@b2', 3), 'l-b-lst': op_load('@bm1', 4), 'l-b-lst2': op_load('@bm2', 4), 'l-b-imp': op_load('@bmi', 4), 'l-b-a': op_load('@bma', 40), 'l-b-b': op_load('@bmb', 40),
    'l-t-bad': op_load_bad('@tbad', 3), 'l-t-bad2': op_load_bad('{{"a', 2), 'l-t-bad3': op_load_bad("['''a", 3), 'l-b-bad': op_load_bad('@bbad', 3), 'l-b-bad2': op_load_bad('@bbad2', 3), 'l-b-bad3': op_load_bad('@bhalf', 3),
    'd-t1': op_dump('V1', False, 'none'), 'd-t2': op_dump('V2', False, 'none'), 'd-p1': op_dump('V1', False, 'none', indent=' '), 'd-p2': op_dump('V2', False, 'none', indent=' '),
    'd-b1': op_dump('V1', True, 'none'), 'd-b2': op_dump('V2', True, 'none'), 'd-b1i': op_dump('V1', True, 't2'), 'd-b2i': op_dump('V2', True, 't2'), 'd-b2i1': op_dump('V2', True, 't1'),
    'd-b3': op_dump('V3', True, 'none'), 'd-b4': op_dump('V4', True, 'none'), 'd-b3s': op_dump('V3', True, 's1'), 'd-b4s': op_dump('V4', True, 's1'),
    'd-t-bad': op_dump_bad(False), 'd-b-bad': op_dump_bad(True), 'd-b-badi': op_dump_bad(True, 't2'),
    'eq': op_equals('V1', 'V2'), 'eq1': op_equals('V1', 'V1'), 'sym': op_symbols,
}
CORE_OPS = sorted(OPS)
FILE_OPS = [o for o in sorted(OPS) if o not in ('eq', 'eq1', 'sym')]


def op_alone(name):
    out, n = OPS[name]((-1, None))
    return out, n


_OPS_ALONE = {}


def op_solo(name):
    if name not in _OPS_ALONE:
        _OPS_ALONE[name] = in_child(op_alone, name)
    return _OPS_ALONE[name]


def run_after(names, wants):
    before = repr(shared_state())
    for k, n in enumerate(names):
        got = op_alone(n)
        if tuple(got) != tuple(wants[k]):
            raise Violation('%s after %s gives %r, alone %r' % (n, ' and '.join(names[:k]), got, wants[k]))
    if repr(shared_state()) != before:
        raise Violation('%r: the shared tables have changed to %s' % (names, shared_state()))
    return len(names)


def after(payload, rec):
    names = payload
    n = in_child(run_after, names, [op_solo(x) for x in names])
    rec.trans(n)
    rec.trace()
    rec.n_states += 1
    rec.outcome('after')


def run_nested(outer, inner, want_o, want_i):
    n = 0
    for at in range(max(1, want_o[1])):
        seen = []

        def fn():
            seen.append(op_alone(inner))
        got = OPS[outer]((at, fn))
        if got[0] != want_o[0]:
            raise Violation('%s with %s inside its %d-th file operation gives %r, alone %r' % (outer, inner, at, got[0], want_o[0]))
        for s in seen:
            if tuple(s) != tuple(want_i):
                raise Violation('%s inside the %d-th file operation of %s gives %r, alone %r' % (inner, at, outer, s, want_i))
        n += 1
    return n


def run_nesteds(i, n):
    total = 0
    for outer, inner in [(a, b) for a in FILE_OPS for b in CORE_OPS][i::n]:
        total += run_nested(outer, inner, _OPS_ALONE[outer], _OPS_ALONE[inner])
        yield total


def nested(payload, rec):
    for x in OPS:
        op_solo(x)

    def on_item():
        rec.evals += 1
    n = child(run_nesteds, payload, on_item)
    rec.trans(2 * n)
    rec.trace(n)
    rec.n_states += n
    rec.outcome('nested')


# -- a catalog shared over time -----------------------------------------------------------------------------------

IMPORT_DOCS = ['$ion_symbol_table::{imports:[{name:"%s",version:%d%s}],symbols:["q"]} $10 {$11:$12} a::$13 q' % (n, v, m)
               for n in ('t1', 'u') for v in (1, 2, 3) for m in ('', ',max_id:0', ',max_id:2', ',max_id:4', ',max_id:6')]
REGISTER = [(), (('u', 1),), (('u', 2),), (('u', 3), ('u', 1)), (('t1', 3),)]
REG_TEXTS = {('u', 1): ['u1', 'u2'], ('u', 2): ['u1', 'u2', 'u3', 'u4'], ('u', 3): ['v1'], ('t1', 3): ['w1', 'a', 'w3', 'w4', 'w5']}


def read_with(cat, doc, stop=None):
    i = ion()
    b = D.B()
    r = D.make('sm', cat)
    out = []
    try:
        e = r.send(b.NEXT)
        e = r.send(b.data(doc + ' '))
        while not e.event_type.is_stream_signal and len(out) != stop:
            out.append(D.norm(e))
            e = r.send(b.NEXT)
    except Exception as x:
        out.append('error ' + type(x).__name__)
    return out


def register(cat, which):
    for n, v in which:
        cat.register(ion().sym.shared_symbol_table(n, v, REG_TEXTS[n, v]))


def run_catalogs(depth, i, n):
    count = 0
    fresh = {}
    for reg in REGISTER:
        for doc in IMPORT_DOCS:
            cat = D.catalog(CAT)
            register(cat, reg)
            fresh[reg, doc] = read_with(cat, doc)
    for hist in list(product(range(len(IMPORT_DOCS)), repeat=depth))[i::n]:
        for reg in REGISTER:
            cat = D.catalog(CAT)
            for h in hist:
                got = read_with(cat, IMPORT_DOCS[h])
                if got != fresh[(), IMPORT_DOCS[h]]:
                    raise Violation('with a catalog used before for %r, %r gives %r, with a new one %r' % (hist, IMPORT_DOCS[h], got, fresh[(), IMPORT_DOCS[h]]))
            register(cat, reg)
            for doc in IMPORT_DOCS:
                got = read_with(cat, doc)
                if got != fresh[reg, doc]:
                    raise Violation('after reading %r with the same catalog and registering %r, %r gives %r, with a new catalog %r' % ([IMPORT_DOCS[h] for h in hist], reg, doc, got, fresh[reg, doc]))
                count += 1
        yield count


def catalogs(payload, rec):
    def on_item():
        rec.evals += 1
    n = child(run_catalogs, payload, on_item)
    rec.trans(n)
    rec.trace(n)
    rec.n_states += n
    rec.outcome('catalog')


# -- catalogs and import tables that differ in what the same name, version and size stand for -----------------------

RIVALS = [{}, {'n': {1: ['a', 'b']}}, {'n': {1: ['c', 'd']}}, {'n': {1: ['b', 'a']}}, {'n': {1: [None, 'b']}}, {'n': {2: ['a', 'x']}}, {'n': {1: ['a']}}, {'n': {1: ['c', 'd'], 2: ['e']}}, {'m': {1: ['a', 'b']}}]
RIVAL_DOCS = [((('n', 1, 2),), ()), ((('n', 1, 2),), ('q',)), ((('n', 2, 2),), ('q',)), ((('m', 1, 2), ('n', 1, 2)), ('q', 'a')), ((('n', 1, 3),), ('a',))]
RIVAL_TABLES = [('n', 1, ('a', 'b')), ('n', 1, ('b', 'a')), ('n', 1, ('c', 'd')), ('n', 2, ('a', 'b')), ('m', 1, ('a', 'b'))]


def rival_doc(k, binary):
    imports, symbols = RIVAL_DOCS[k]
    n = 9 + sum(m for _, _, m in imports) + len(symbols)
    if not binary:
        return ('$ion_symbol_table::{imports:[%s],symbols:[%s]} ' % (','.join('{name:"%s",version:%d,max_id:%d}' % x for x in imports), ','.join('"%s"' % x for x in symbols))
                + ' '.join('$%d::{$%d:$%d}' % (j, j, j) for j in range(10, n + 1)) + ' ')
    sized = lambda t, b: (bytes([t | len(b)]) if len(b) < 14 else bytes([t | 14, 0x80 | len(b)])) + b
    imp = b''.join(sized(0xd0, b'\x84\x81' + name.encode() + b'\x85\x21' + bytes([v]) + b'\x88\x21' + bytes([m])) for name, v, m in imports)
    body = b'\x86' + sized(0xb0, imp) + b'\x87' + sized(0xb0, b''.join(b'\x81' + x.encode() for x in symbols))
    out = IVM + sized(0xe0, b'\x81\x83' + sized(0xd0, body))
    return out + b''.join(sized(0xe0, b'\x81' + bytes([0x80 | j]) + sized(0xd0, bytes([0x80 | j, 0x71, j]))) for j in range(10, n + 1))


def rival_ops():
    out = [('read', c, d, b) for c in range(len(RIVALS)) for d in range(len(RIVAL_DOCS)) for b in (False, True)]
    return out + [('write', t, u, 0) for t in range(len(RIVAL_TABLES)) for u in (None, 1, 4)]


def rival(op):
    i = ion()
    if op[0] == 'read':
        cat = D.catalog(RIVALS[op[1]])
        try:
            got = i.loads(rival_doc(op[2], op[3]), single_value=False, catalog=cat)
            return [repr(from_py(v)) for v in got]
        except Exception as e:
            return 'error ' + type(e).__name__
    tabs = [i.sym.shared_symbol_table(n, v, list(t)) for n, v, t in [RIVAL_TABLES[k] for k in op[1:3] if k is not None]]
    tok = lambda x: i.sym.SymbolToken(x, None)
    return repr(i.dumps([tok(x) for x in ('a', 'b', 'c', 'a', 'q', 'd')] + [{'a': tok('b')}], imports=tabs))


def run_rivals(want, i, n):
    ops = rival_ops()
    count = 0
    for k, a in list(enumerate(ops))[i::n]:
        for j, b in enumerate(ops):
            for x, w in ((a, want[k]), (b, want[j])):
                got = rival(x)
                if got != w:
                    raise Violation('%r among others (%r, %r) gives %r, alone %r' % (x, a, b, got, w))
            count += 1
            # Two at a time.
            if a[0] == b[0] == 'read' and a[3] == b[3] and (j + k) % 3 == 0:
                got, alone2 = turns([a, b]), [turns([a])[0], turns([b])[0]]
                if got != alone2:
                    raise Violation('%r and %r read in turns give %r, one by one %r' % (a, b, got, alone2))
        yield count


def turns(ops):
    """Readers stepped in turns."""
    bd = D.B()
    gens = [D.make('bm' if op[3] else 'sm', D.catalog(RIVALS[op[1]])) for op in ops]
    sends = [[bd.NEXT, bd.data(rival_doc(op[2], op[3]))] for op in ops]
    evs = [[] for _ in ops]
    live = list(range(len(ops)))
    while live:
        for k in list(live):
            try:
                e = gens[k].send(sends[k].pop(0) if sends[k] else bd.NEXT)
            except Exception as x:
                evs[k].append(type(x).__name__)
                live.remove(k)
                continue
            evs[k].append(e)
            if e.event_type.is_stream_signal and not sends[k]:
                live.remove(k)
    return [[x if isinstance(x, str) else x.event_type.name if x.event_type.is_stream_signal else repr(D.norm(x)) for x in ev] for ev in evs]


def rivals(payload, rec):
    def on_item():
        rec.evals += 1
    want = [in_child(rival, op) for op in rival_ops()]
    n = child(run_rivals, (want,) + tuple(payload), on_item)
    rec.trans(2 * n)
    rec.trace(n)
    rec.n_states += n
    rec.outcome('rivals')


# -- what fails, or is left half done, and then something else ------------------------------------------------------

RICH_T = ("$ion_symbol_table::{symbols:[\"u\",\"v\"]} a::'b c'::{f:[1,-0x1f,0b10,1_0], 'g h':(+ a.b \"c\\n\\u20ac\"), \"i\":-1.50d2, j:null.clob} 1.5e-3 -inf nan "
          "'''x\\\n\u00e9''' /* c */ '''y''' 2000-01-02T03:04:05.120+01:30 2001T {{aGk=}} {{\"q\\x41\"}} {{'''r''' '''s'''}} $10::$11 // d\n true null ")
RICH_V = [N('symbol', 'u', 'v'), ST(('f', L(N('int', 1), N('int', -2 ** 70))), ('g h', SX(N('symbol', '+'), N('string', 'c\n\u20ac'), N('symbol', 'a b')))), F(1.5), F(float('inf')),
          N('decimal', (1, 150, -2)), N('timestamp', ('s', 2000, 1, 2, 3, 4, 5, (120, 3), 90)), N('blob', b'hi\xff'), N('clob', b'q"\n'), N('bool', True), N('clob'), ann(L(), 'e\u0301')]
VALUES['VR'] = RICH_V
BAD_STR = ('\ud800', 'ab\udc00', '\u20ac\ud800cd', 'x' * 40 + '\udfff')


class Angry(object):
    """Every use of it fails."""

    def __getattr__(self, name):
        raise ZeroDivisionError(name)


def bad_items():
    yield from range(3)
    raise ZeroDivisionError('items')


def bad_values():
    """[(name, a function making a value that cannot be written)]"""
    from datetime import datetime
    from decimal import Decimal
    i = ion()
    from amazon.ion import simple_types as S
    T = i.core.IonType
    out = []
    for k, t in enumerate(BAD_STR):
        out += [('string%d' % k, lambda t=t: t),
                ('symbol%d' % k, lambda t=t: i.sym.SymbolToken(t, None)),
                ('ionstring%d' % k, lambda t=t: S.IonPyText.from_value(T.STRING, t, (i.sym.SymbolToken('a', None),))),
                ('ann%d' % k, lambda t=t: S.IonPyInt.from_value(T.INT, 5, (i.sym.SymbolToken('ok', None), i.sym.SymbolToken(t, None)))),
                ('annlist%d' % k, lambda t=t: S.IonPyList.from_value(T.LIST, [1], (i.sym.SymbolToken(t, None),))),
                ('key%d' % k, lambda t=t: {'a': 1, t: 2})]
    out += [('object', object), ('angry', Angry), ('class', lambda: int), ('items', bad_items), ('nan', lambda: Decimal('NaN')), ('inf', lambda: Decimal('-Infinity')),
            ('complex', lambda: 1j), ('intkey', lambda: {'a': 1, 5: 2}), ('ionobj', lambda: S.IonPyInt.from_value(T.INT, 1, (object(),))),
            ('nulltok', lambda: i.sym.SymbolToken(None, None)), ('bigsid', lambda: {'a': i.sym.SymbolToken(None, None)})]
    return out


def wraps():
    """[(name, a function that puts a value somewhere)]"""
    i = ion()
    from amazon.ion import simple_types as S
    T = i.core.IonType
    return [('top', lambda v: [v]), ('after', lambda v: ['good', i.sym.SymbolToken('n1', None), 1.5, v]), ('list', lambda v: [['x', v, 'y']]),
            ('sexp', lambda v: [S.IonPyList.from_value(T.SEXP, [1, [v]], (i.sym.SymbolToken('n2', None),))]), ('struct', lambda v: [{'n3': 'x', 'n4': v}]), ('deep', lambda v: [{'n5': [{'n6': [b'1', v]}]}])]


WRITERS = [(False, 'none', {}), (False, 'none', {'indent': '  '}), (True, 'none', {}), (True, 't2', {})]


def poison_write(value, wrap, mode):
    def go():
        i = ion()
        binary, opt, kw = WRITERS[mode]
        o = dict(kw)
        if opt != 'none':
            o['imports'] = get_imports(opt)[0]
        i.dumps(wrap(value()), binary=binary, sequence_as_stream=True, **o)
    return go


def poison_event(mode, code):
    """Events a writer refuses, in and out of containers."""
    def go():
        i = ion()
        E, T, IonEvent = i.core.IonEventType, i.core.IonType, i.core.IonEvent
        st, li, end = IonEvent(E.CONTAINER_START, T.STRUCT), IonEvent(E.CONTAINER_START, T.LIST), IonEvent(E.CONTAINER_END)
        tok = lambda x: i.sym.SymbolToken(x, None)
        ok = IonEvent(E.SCALAR, T.SYMBOL, tok('ok'))
        seqs = [[IonEvent(E.SCALAR, T.STRING, 1)], [IonEvent(E.SCALAR, T.INT, 'x')], [IonEvent(E.SCALAR, T.DECIMAL, 'x')], [IonEvent(E.SCALAR, T.FLOAT, 'x')], [IonEvent(E.SCALAR, T.BLOB, 'x')],
                [IonEvent(E.SCALAR, T.CLOB, 7)], [IonEvent(E.SCALAR, T.TIMESTAMP, 7)], [IonEvent(E.SCALAR, T.SYMBOL, 7)], [IonEvent(E.SCALAR, 99, 7)], [end], [st, ok], [st, IonEvent(E.SCALAR, T.INT, 'x', tok('n'))],
                [st, li._replace(field_name=tok('m')), ok, i.core.ION_STREAM_END_EVENT], [li, ok, IonEvent(E.SCALAR, T.STRING, 'a\ud800')], [IonEvent(E.VERSION_MARKER, None), li, i.core.ION_VERSION_MARKER_EVENT], [li, ok, None, None],
                [li, ok], [st], [ok, li, li, IonEvent(E.SCALAR, T.SYMBOL, tok('\ud800'), None, (tok('an'),))], [ok, 5], [IonEvent(E.INCOMPLETE)]]
        w = writer_of(('text', 'pretty', 'bin', 'bin-t2')[mode])
        for e in seqs[code]:
            while w.send(e).type.name == 'HAS_PENDING':
                e = None
    return go


N_EVENT_POISONS = 21


def fixed_rich():
    """A binary document with every kind of value."""
    struct = b'\x84\xb3\x21\x01\x11' + b'\x85\xb1\x11' + b'\x84\x0f'
    struct = bytes([0xd0 | len(struct)]) + struct
    wrapped = b'\x82\x8a\x8b' + struct
    return (IVM + lst(b'u', b'v') + b'\xee' + bytes([0x80 | len(wrapped)]) + wrapped + b'\x48\x3f\xf8\0\0\0\0\0\0' + b'\x53\xc2\x81\x96'
            + b'\x6a\x43\xa4\x0f\xd0\x81\x82\x83\x84\x85\xc3'
            + b'\xa3hi\xff' + b'\x92q"' + b'\x8e\x8fabcdefghijklmno' + b'\x86\xe2\x82\xac\xc3\xa9!' + b'\x71\x0b' + b'\xc2\x21\x04' + b'\x29\x01\0\0\0\0\0\0\0\0' + b'\x11\x20')


RICH_B = fixed_rich()


def poison_read(doc, how):
    """The document read to its end or to its error by load, or an unfinished reader left behind."""
    def go():
        i = ion()
        cat = shared('cat', lambda: D.catalog(CAT))
        if how == 'load':
            d = doc.encode('utf-8', 'surrogatepass') if isinstance(doc, str) else doc
            i.loads(d, single_value=False, catalog=cat)
            return
        b = D.B()
        r = D.make('bm' if isinstance(doc, bytes) else 'sm', cat)
        e = r.send(b.NEXT)
        e = r.send(b.data(doc))
        while not e.event_type.is_stream_signal:
            e = r.send(b.SKIP if how == 'skip' and e.event_type is b.CSTART else b.NEXT)
    return go


TEXT_BAD = ('\x00', '"', "'", '\\', '{', '}', ')', '_', '.', '$', ':', '\ud800')
BIN_BAD = (0xff, 0x00, 0xe0, 0x8e, 0xd1, 0x71, 0x6f, 0xef)


def poisons(tier):
    """[(name, function)]"""
    out = []
    q = tier == 'quick'
    for vn, v in bad_values():
        for wn, w in wraps():
            for mode in range(4):
                out.append(('write %s %s %d' % (vn, wn, mode), poison_write(v, w, mode)))
    for mode in range(4):
        for code in range(N_EVENT_POISONS):
            out.append(('event %d %d' % (mode, code), poison_event(mode, code)))
    for h, how in enumerate(('load', 'drop', 'skip')):
        for k in range(1 + h % 2 if q else 1, len(RICH_T), 2 if q else 1):
            out.append(('text prefix %d %s' % (k, how), poison_read(RICH_T[:k], how)))
        for k in range(1 + h % 2 if q else 1, len(RICH_B), 2 if q and h else 1):
            out.append(('binary prefix %d %s' % (k, how), poison_read(RICH_B[:k], how)))
    for k in range(len(RICH_T)):
        for j, c in enumerate(TEXT_BAD):
            if not q or (k + j) % 6 == 0:
                out.append(('text %d %r' % (k, c), poison_read(RICH_T[:k] + c + RICH_T[k + 1:], 'load')))
    for k in range(len(RICH_B)):
        for j, c in enumerate(BIN_BAD):
            if not q or (k + j) % 4 == 0:
                out.append(('binary %d %02x' % (k, c), poison_read(RICH_B[:k] + bytes([c]) + RICH_B[k + 1:], 'load')))
    return out


OPS.update({'r-t': op_load(RICH_T, 50), 'r-b': op_load(RICH_B, 50), 'r-dt': op_dump('VR', False, 'none'), 'r-dp': op_dump('VR', False, 'none', indent='  '), 'r-db': op_dump('VR', True, 'none'), 'r-dbi': op_dump('VR', True, 't2'), 'r-eq': op_equals('VR', 'VR')})
PROBES = ('r-t', 'r-b', 'r-dt', 'r-dp', 'r-db', 'r-dbi', 'r-eq', 'l-t-imp', 'l-b-imp', 'sym')
STEP_PROBES = ('tt1', 'bm1', 'wsc', 'wbi1')
# What is done next, first of all: something of the same kind.
NEAR = {'write': ('r-dt', 'r-dp', 'wsc', 'r-db', 'r-dbi', 'wbi1'), 'event': ('r-dt', 'r-dp', 'wsc', 'r-db', 'r-dbi', 'wbi1'), 'text': ('r-t', 'l-t-imp', 'tt1'), 'binary': ('r-b', 'l-b-imp', 'bm1')}


def probes(tier, k, name):
    every = PROBES + STEP_PROBES
    if tier != 'quick':
        return every
    near = NEAR[name.split()[0]]
    if len(near) > 3:
        # (Text or binary, whichever the operation writes.)
        near = near[:3] if name.split()[1 if name.startswith('event') else -1] in '01' else near[3:]
    return near[k % 3:] + near[:k % 3] + (every[k % len(every)],)


def run_poisons(tier, i, n):
    before = repr(shared_state())
    count = 0
    for k, (name, fn) in list(enumerate(poisons(tier)))[i::n]:
        said = None
        for p in probes(tier, k // n, name):
            try:
                fn()
                got = 'done'
            except Exception as x:
                got = type(x).__name__
            if said is not None and got != said:
                raise Violation('%s says %s, and again, after %s, %s' % (name, said, p, got))
            said = got
            if p in PROBES:
                got, want = tuple(op_alone(p)), tuple(_OPS_ALONE[p])
            else:
                got, want = tuple(alone(p)), tuple(_ALONE[p])
            if got != want:
                raise Violation('after %s (%s), %s gives %r, alone %r' % (name, said, p, got, want))
            count += 1
        yield count
    if repr(shared_state()) != before:
        raise Violation('the shared tables have changed to %s' % (shared_state(),))
    yield count


def poison(payload, rec):
    for x in PROBES:
        op_solo(x)
    for x in STEP_PROBES:
        solo(x)

    def on_item():
        rec.evals += 1
    n = child(run_poisons, payload, on_item)
    rec.trans(2 * n)
    rec.trace(n)
    rec.n_states += n
    rec.outcome('poison')


KINDS = {'pair': pair, 'after': after, 'nested': nested, 'catalogs': catalogs, 'rivals': rivals, 'poison': poison}
TRIPLE = ('ts1', 'tm1', 'tbad', 'b2', 'bm1', 'bm2', 'wt2', 'wbi1', 'wbbad')


def jobs(tier):
    # Every script alone, in a fresh process each, before the workers are forked. (What dies here is reported by the cases.)
    for fn, names in ((solo, SCRIPTS), (op_solo, OPS)):
        for n in sorted(names):
            try:
                fn(n)
            except Violation:
                pass
    q = tier == 'quick'
    out = []
    for mode, bound, n in (('all', 4, 12), ('switch', 1, 12), ('three', 2, 8)) if q else (('all', 7, 64), ('switch', 3, 64), ('three', 3, 32)):
        out += [('pair', (mode, bound, i, n)) for i in range(n)]
    out += [('catalogs', (1, i, 2)) for i in range(2)] if q else [('catalogs', (2, i, 16)) for i in range(16)]
    out += [('rivals', (i, 8)) for i in range(8)]
    out += [('poison', (tier, i, 16)) for i in range(16)]
    out += [('nested', (i, 8)) for i in range(8)] + [('after', (2 if q else 3, i, 16)) for i in range(16)]
    return out


def cases(kind, args):
    if kind != 'after':
        yield args
        return
    depth, i, n = args
    names = CORE_OPS
    combos = [(a, b) for a in names for b in names]
    if depth > 2:
        combos += [(a, b, c) for a in names for b in names for c in names]
    for c in combos[i::n]:
        yield c + c[:1]
