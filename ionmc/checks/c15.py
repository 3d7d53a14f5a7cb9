# -*- coding: utf-8 -*-
"""C15: all combinations of timestamp constructor arguments against the documented rules, and exhaustive round trips of fields."""
import datetime
from decimal import Decimal, Context, localcontext, Inexact
from itertools import product

from .. import refbin, reftext, values as V
from ..harness import Violation
from ..model import ion, N, to_py, from_py, ts_from_py, to_events
from ..refsym import RefError, Unspecified

PID = 'C15'
RULE = ('Construction: the full product of microsecond (absent, None, boundary values, out of range), fractional_precision (absent, None, -1..7), fractional_seconds (absent, None, decimals of every '
        'size and spelling, non-finite ones), precision, offset, positional or keyword form, class and decimal context, judged by a model of the documented rules. '
        'Field ranges: every date limit, every offset. Round trips: every offset of the range, every day of a leap and a common year, every minute of the day, every second, every year, every number of fractional '
        'digits, each combined with representative values of the other fields, written to text and binary (and decoded by the reference decoders) and read back. Pairs of spellings of one instant are written and read together. State = distinct argument tuple or field tuple, '
        'transition = construction or write or read.')
ASSUMPTIONS = ['fractional_seconds is a Decimal, microsecond and fractional_precision are ints', 'timestamps whose UTC fields leave the years 1-9999 are out of scope',
               'timestamps of day precision or less carry no offset (Ion has none for them)']

PRECS = ('absent', None, 'Y', 'M', 'D', 'm', 's')
US = ('absent', None, 0, 1, 10, 100000, 120000, 123456, 999999, 500000, 123450, -1, 1000000)
FP = ('absent', None, -1, 0, 1, 2, 3, 4, 5, 6, 7)
FS = ('absent', None, '0', '0.0', '0.000000', '0.0000000', '-0', '-0.00', '0E+3', '0E-20', '0.1', '0.10', '0.100', '0.12', '0.123456', '0.1234567', '0.123456999999', '0.9999999', '0.000001', '0.0000001',
      '1E-1', '12E-3', '9.99E-1', '1', '1.0', '-0.1', '2', '1E+2', '0.99999999999999999999999999999999', '1E-40', 'NaN', 'Infinity', '-Infinity', '0.5', '123456E-6', '0.1234560000')
OFFS = (None, 0, 1, -1, 330, -480, 1439, -1439)


def decimal(s):
    return Decimal(s)


def model(us, fp, fs):
    """-> (microsecond, fractional precision, (coefficient, exponent)) or None when it has to be refused."""
    us = None if us == 'absent' else us
    fp = None if fp == 'absent' else fp
    fs = None if fs == 'absent' else fs
    if fp is not None and not 0 <= fp <= 6:
        return None
    if fs is not None:
        if us is not None or fp is not None:
            return None
        d = Decimal(fs)
        if not d.is_finite():
            return None
        sign, digits, exp = d.as_tuple()
        coef = int(''.join(map(str, digits)))
        if sign and coef:
            return None
        if coef and (exp >= 0 or len(str(coef)) > -exp):
            return None
        if coef == 0 and exp >= 0:
            exp = 0
        n = -exp
        return (coef // 10 ** (n - 6) if n >= 6 else coef * 10 ** (6 - n), min(n, 6), (coef, exp))
    if us is not None:
        if not 0 <= us <= 999999:
            return None
        fp = 6 if fp is None else fp
        if us % 10 ** (6 - fp):
            return None
        return (us, fp, (us // 10 ** (6 - fp), -fp))
    if fp is not None:
        return None
    return (0, 0, (0, 0))


def offset_of(ts):
    o = ts.utcoffset()
    return None if o is None else (o.days * 86400 + o.seconds) // 60


def observe(ts, want, prec, off, fields, what, cls):
    i = ion()
    s, d, e = ts.fractional_seconds.as_tuple()
    got = (ts.microsecond, ts.fractional_precision, (int(''.join(map(str, d)) or '0'), e))
    if got != want or s:
        raise Violation('%s has (microsecond, fractional_precision, fractional_seconds) %r, not %r' % (what, got, want))
    if ts.precision is not (None if prec in ('absent', None) else i.prec[prec]):
        raise Violation('%s has precision %r' % (what, ts.precision))
    if offset_of(ts) != off:
        raise Violation('%s has offset %r' % (what, ts.utcoffset()))
    if (ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second) != fields:
        raise Violation('%s has fields %r' % (what, (ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second)))
    if type(ts) is not cls:
        raise Violation('%s is a %s' % (what, type(ts)))


CTX = {'default': None, 'low': dict(prec=2), 'inexact': dict(prec=5, traps=[Inexact]), 'emin': dict(prec=3, Emin=-3, Emax=3)}


def construct(payload, rec):
    """All precisions and offsets of one (microsecond, fractional precision, fractional seconds)."""
    us, fp, fs, form, ctx = payload
    i = ion()
    fields = (2000, 2, 29, 23, 59, 58)
    want = model(us, fp, fs)
    args = fields
    base = {}
    if us != 'absent':
        if form == 'kw':
            base['microsecond'] = us
        else:
            args = fields + (us,)
    if fp != 'absent':
        base['fractional_precision'] = fp
    if fs != 'absent':
        base['fractional_seconds'] = None if fs is None else Decimal(fs)
    for prec, off in product(PRECS, OFFS) if ctx == 'default' else (('s', 60),):
        tz = None if off is None else i.core.OffsetTZInfo(datetime.timedelta(minutes=off))
        kw = dict(base)
        if prec != 'absent':
            kw['precision'] = None if prec is None else i.prec[prec]
        a = args
        if form == 'pos' and us != 'absent':
            a = args + (tz,)
        else:
            kw['tzinfo'] = tz
        for cls in (i.core.Timestamp, i.st.IonPyTimestamp):
            what = '%s(*%r, **%r) under %s' % (cls.__name__, a, kw, ctx)
            sent = dict(kw)
            with localcontext(None if CTX[ctx] is None else Context(**CTX[ctx])):
                try:
                    ts = cls(*a, **sent)
                except ValueError:
                    if want is not None:
                        raise Violation('%s is refused' % what)
                    rec.outcome('refused')
                    continue
                except Exception as e:
                    raise Violation('%s raises %s: %s' % (what, type(e).__name__, e))
                if want is None:
                    raise Violation('%s is accepted' % what)
                observe(ts, want, prec, off, fields, what, cls)
                # Given the other way round.
                us2, fp2, (coef, exp) = want
                kw2 = dict(tzinfo=tz, precision=ts.precision)
                others = [cls(*fields, fractional_seconds=Decimal((0, tuple(map(int, str(coef))), exp)), **kw2)]
                if -exp <= 6:
                    others.append(cls(*fields, microsecond=us2, fractional_precision=fp2, **kw2))
                for o in others:
                    observe(o, want, prec, off, fields, 'the other form of ' + what, cls)
                    if not (o == ts) or o != ts or hash(o) != hash(ts) or (ts.precision is not None and not (i.ion_equals(o, ts) and i.ion_equals(ts, o))):
                        raise Violation('%s does not equal its other form %r' % (what, o))
            rec.trans(3)
            rec.outcome('accepted')
    rec.n_states += 1
    rec.trace()


def shorthand(payload, rec):
    """timestamp(): offsets by hours and minutes, and everything else passed on."""
    hours, minutes = payload
    i = ion()
    for us, fp, fs in ((None, None, None), (120000, 2, None), (None, None, '0.1234567'), (5, 0, None), (None, 3, None)):
        want = model(us, fp, fs)
        bad = want is None or (hours is not None and not -23 <= hours <= 23) or (minutes is not None and not -59 <= minutes <= 59)
        off = None if hours is None and minutes is None else (hours or 0) * 60 + (minutes or 0)
        try:
            ts = i.core.timestamp(2001, 3, 4, 5, 6, 7, us, hours, minutes, precision=i.prec['s'], fractional_precision=fp, fractional_seconds=None if fs is None else Decimal(fs))
        except ValueError:
            if not bad:
                raise Violation('timestamp with %r %r is refused' % (payload, (us, fp, fs)))
            rec.outcome('refused')
            continue
        if bad:
            raise Violation('timestamp with %r %r is accepted' % (payload, (us, fp, fs)))
        observe(ts, want, 's', off, (2001, 3, 4, 5, 6, 7), 'timestamp with %r %r' % (payload, (us, fp, fs)), i.core.Timestamp)
        rec.outcome('accepted')
    for prec, n in (('Y', 1), ('M', 2), ('D', 3), ('m', 5), ('s', 6)):
        f = (2001, 3, 4, 5, 6, 7)[:n]
        try:
            ts = i.core.timestamp(*f, off_hours=hours, off_minutes=minutes, precision=i.prec[prec])
        except ValueError:
            continue
        off = None if hours is None and minutes is None else (hours or 0) * 60 + (minutes or 0)
        observe(ts, (0, 0, (0, 0)), prec, off, f + (2001, 1, 1, 0, 0, 0)[n:], 'timestamp%r' % (f,), i.core.Timestamp)
    rec.trans(10)
    rec.state(payload)
    rec.trace()


def limits(payload, rec):
    """Field limits: everything outside is refused with ValueError."""
    i = ion()
    kind, v = payload
    if kind == 'offset':
        ok = -86400 < v < 86400
        try:
            tz = i.core.OffsetTZInfo(datetime.timedelta(seconds=v))
        except ValueError:
            if ok:
                raise Violation('offset of %d s refused' % v)
            rec.outcome('refused')
            return
        if not ok:
            raise Violation('offset of %d s accepted' % v)
        d = datetime.datetime(2000, 1, 1, tzinfo=tz)
        if tz.utcoffset(d) != datetime.timedelta(seconds=v) or d.utcoffset() != datetime.timedelta(seconds=v):
            raise Violation('offset of %d s is %r' % (v, d.utcoffset()))
        ts = i.core.Timestamp(2000, 1, 2, 3, 4, 5, None, tz, precision=i.prec['s'])
        for binary in (True, False):
            # A whole number of minutes is written, anything else refused.
            try:
                back = i.loads(i.dumps(ts, binary=binary))
            except ValueError:
                if v % 60 == 0:
                    raise
                rec.outcome('not written')
                continue
            if v % 60:
                raise Violation('an offset of %d s is written, and read as %r' % (v, back))
            if back.utcoffset() != tz.utcoffset(ts) or not i.ion_equals(ts, back):
                raise Violation('an offset of %d s is read as %r' % (v, back))
            rec.outcome('written')
        rec.state(payload)
        return
    f = dict(year=2000, month=1, day=1, hour=0, minute=0, second=0)
    f.update(v)
    try:
        datetime.datetime(**f)
        ok = True
    except ValueError:
        ok = False
    for cls in (i.core.Timestamp, i.st.IonPyTimestamp):
        for kw in ({}, {'fractional_seconds': Decimal('0.5')}, {'microsecond': 5}):
            try:
                ts = cls(**dict(f, **kw))
            except ValueError:
                if ok:
                    raise Violation('%r %r refused' % (f, kw))
                continue
            if not ok:
                raise Violation('%r %r accepted' % (f, kw))
            if (ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second) != tuple(f[k] for k in ('year', 'month', 'day', 'hour', 'minute', 'second')):
                raise Violation('%r gives %r' % (f, ts))
    rec.state(repr(payload))
    rec.trans(6)
    rec.outcome('fields')


def utc(payload):
    """Whether the UTC fields are in range."""
    prec, y, mo, d, h, mi, s, frac, off = payload
    if off is None:
        return True
    day = datetime.date(y, mo or 1, d or 1).toordinal() * 1440 + (h or 0) * 60 + (mi or 0) - off
    return 1440 <= day < (datetime.date.max.toordinal() + 1) * 1440


def roundtrip(payload, rec):
    i = ion()
    node = N('timestamp', payload)
    v = to_py(node)
    if from_py(v) != node:
        raise Violation('%r is constructed as %r' % (payload, from_py(v)))
    b = i.dumps(v, binary=True)
    t = i.dumps(v, binary=False)
    try:
        for got, how in ((refbin.decode_stream(b, {}, minimal=True), 'binary'), (reftext.parse_stream(t), 'text')):
            if got != [node]:
                raise Violation('%r in %s is %r, which denotes %r' % (payload, how, b if how == 'binary' else t, got))
    except (RefError, Unspecified) as e:
        raise Violation('%r is written as %r, %r: %s' % (payload, b, t, e))
    for data in (b, t, t.encode('ascii')):
        x = i.loads(data)
        if from_py(x) != node:
            raise Violation('%r from %r is read as %r' % (payload, data, from_py(x)))
        if not i.ion_equals(x, v):
            raise Violation('%r from %r is not equal to the original' % (payload, data))
        if i.dumps(x, binary=True) != b or i.dumps(x, binary=False) != t:
            raise Violation('%r is not written the same when read' % (payload,))
    prec, y, mo, d, h, mi, s, frac, off = payload
    if prec == 's' and frac and frac[1] == 6:
        # A plain datetime of the same fields.
        dt = datetime.datetime(y, mo, d, h, mi, s, frac[0], v.tzinfo)
        if i.dumps(dt, binary=True) != b or i.dumps(dt, binary=False) != t:
            raise Violation('datetime %r is written as %r %r' % (dt, i.dumps(dt, binary=True), i.dumps(dt, binary=False)))
        rec.trans(2)
    if off is not None:
        # From UTC fields to local ones.
        days = datetime.date(y, mo or 1, d or 1).toordinal()
        m = days * 1440 + (h or 0) * 60 + (mi or 0) - off
        u = datetime.date.fromordinal(m // 1440)
        adj = i.core.Timestamp.adjust_from_utc_fields(u.year, u.month, u.day, m % 1440 // 60, m % 60, s or 0, None, v.tzinfo, precision=v.precision,
                                                      fractional_seconds=None if frac is None else v.fractional_seconds)
        if ts_from_py(adj) != payload:
            raise Violation('%r adjusted from UTC fields is %r' % (payload, ts_from_py(adj)))
        rec.trans()
    rec.trans(5)
    rec.trace()
    rec.n_states += 1
    rec.outcome(prec)


def same(payload, rec):
    """Two spellings of one instant, one after the other and together."""
    i = ion()
    node = N('list', payload)
    vs = [to_py(x) for x in payload]
    for x, v in zip(payload, vs):
        for w in vs:
            i.ion_equals(v, w)
            i.ion_equals(v, w, timestamps_instants_only=True)
        if from_py(v) != x:
            raise Violation('%r has become %r' % (x, v))
    b = i.dumps(vs, binary=True)
    t = i.dumps(vs, binary=False)
    for got, how in ((refbin.decode_stream(b, {}, minimal=True), 'binary'), (reftext.parse_stream(t), 'text')):
        if got != [node]:
            raise Violation('%r in %s is %r, which denotes %r' % (payload, how, b if how == 'binary' else t, got))
    for data in (b, t, t.encode('ascii')):
        if from_py(i.loads(data)) != node:
            raise Violation('%r from %r is read as %r' % (payload, data, from_py(i.loads(data))))
    rec.trans(5)
    rec.trace()
    rec.n_states += 1
    rec.outcome('same')


KINDS = {'same': same, 'construct': construct, 'shorthand': shorthand, 'limits': limits, 'roundtrip': roundtrip}


def g_round(tier):
    T = tier == 'thorough'
    y0 = (2000, 2, 28, 23, 59, 59)
    for off in range(-1439, 1440):
        for f in ((2000, 3, 1, 0, 0), (1999, 12, 31, 23, 59), (2001, 2, 28, 12, 0)) + (((2000, 2, 29, 0, 1), (1970, 1, 1, 0, 0), (1900, 3, 1, 0, 0)) if T else ()):
            yield ('m',) + f + (None, None, off)
        yield ('s', 2000, 1, 1, 0, 0, 0, (abs(off) % 1000, 3), off)
    for year in (2000, 2001, 1900, 2004, 1) if T else (2000, 2001):
        for k in range(366):
            d = datetime.date(year, 1, 1) + datetime.timedelta(days=k)
            if d.year != year:
                continue
            yield ('D', d.year, d.month, d.day, None, None, None, None, None)
            yield ('M', d.year, d.month, None, None, None, None, None, None)
            for h, mi, off in ((0, 0, 1), (23, 59, -1), (12, 0, 720), (0, 0, 1439), (23, 59, -1439), (0, 30, None), (5, 5, 0)):
                yield ('s', d.year, d.month, d.day, h, mi, 59, None, off)
    for year in range(1, 10000):
        yield ('Y', year, None, None, None, None, None, None, None)
        if T or year % 100 in (0, 1, 4, 99) or year < 300 or year > 9800:
            yield ('M', year, 12, None, None, None, None, None, None)
            yield ('D', year, 2, 28, None, None, None, None, None)
            for off in (None, 0, 60, -60) if T else (60, None):
                yield ('s', year, 1, 1, 0, 0, 0, (5, 1), off)
                yield ('m', year, 12, 31, 23, 59, None, None, None if off is None else -off)
    for m in range(1440):
        yield ('m', 2010, 6, 15, m // 60, m % 60, None, None, None)
        yield ('m', 2010, 1, 1, m // 60, m % 60, None, None, 330)
        if T:
            for off in (0, 1, -1, 60, -60, 1439, -1439):
                yield ('m', 2010, 1, 1, m // 60, m % 60, None, None, off)
    for s in range(60):
        for off in (None, 0, 90):
            for frac in (None, (0, 1), (999, 3)):
                yield ('s', 2010, 6, 15, 1, 2, s, frac, off)
    for n in list(range(1, 40 if T else 24)) + [63, 64, 65, 100, 300]:
        coefs = set([0, 1, 10 ** n - 1, 10 ** (n - 1), 10 ** n // 2, 10 ** n // 3, 127, 128, 255, 256, 32768, 2 ** 31, 2 ** 63, 2 ** 64])
        for c in sorted(coefs):
            if c < 10 ** n:
                for off in (None, 0, 1, -1439):
                    yield ('s', 2010, 1, 1, 0, 0, 0, (c, n), off)
                    yield ('s', 2010, 12, 31, 23, 59, 59, (c, n), off)
    for c in range(1000):
        yield ('s', 2010, 12, 31, 23, 59, 59, (c, 3), -1)
        if T:
            yield ('s', 2010, 12, 31, 23, 59, 59, (c * 1001, 6), -1)


def jobs(tier):
    q = tier == 'quick'
    return ([('construct', (i, 16)) for i in range(16)] + [('shorthand', (0, 1)), ('limits', (0, 2)), ('limits', (1, 2))] + [('same', (i, 8)) for i in range(8)] + [('roundtrip', (tier, i, 32)) for i in range(32)])


def cases(kind, args):
    if kind == 'same':
        for p in V.shard(((x, y) for g in V.instants() for a, x in enumerate(g) for b, y in enumerate(g) if (a + b) % 4 == 0), *args):
            yield p
    elif kind == 'construct':
        k = 0
        for c in product(US, FP, FS, ('pos', 'kw'), sorted(CTX)):
            if c[3] == 'pos' and c[0] == 'absent':
                continue
            k += 1
            if k % args[1] == args[0]:
                yield c
    elif kind == 'shorthand':
        for h in [None] + list(range(-25, 26)):
            for m in (None, 0, 1, -1, 30, -30, 59, -59, 60, -60, 61):
                yield h, m
    elif kind == 'limits':
        k = 0
        out = [('offset', v) for v in list(range(-86460, 86461, 60)) + [s + d for s in (-86400, 86400, 0, 3600, -3600) for d in (-1, 1, -30, 30)]]
        for y, mo in product((0, 1, 1900, 2000, 2001, 2004, 9999, 10000), range(0, 14)):
            out += [('fields', dict(year=y, month=mo, day=d)) for d in (0, 1, 28, 29, 30, 31, 32)]
        out += [('fields', {f: v}) for f, lo, hi in (('hour', -1, 25), ('minute', -1, 61), ('second', -1, 62)) for v in range(lo, hi)]
        for c in out:
            k += 1
            if k % args[1] == args[0]:
                yield c
    else:
        tier, i, n = args
        for k, p in enumerate(g_round(tier)):
            if k % n == i and utc(p):
                yield p
