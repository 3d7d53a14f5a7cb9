# -*- coding: utf-8 -*-
"""Documents with one thing larger than the usual 16-bit (and, in binary, 21-bit) limits."""
from . import refbin
from .refbin import td

HUGE = (65534, 65535, 65536, 65537, 70001, 131073)
HUGER = (2 ** 20 + 1, 2 ** 21 - 2, 2 ** 21 - 1, 2 ** 21, 2 ** 21 + 3)


def pad(n):
    """NOP padding of n units after its head."""
    return b'\x0e' + refbin.varuint(n) + b'\0' * n


def binary_values(n):
    """Single values (or padding) with n units of content, without a version marker."""
    for t, c in ((8, b'z'), (9, b'\xe0'), (10, b'\x11')):
        yield td(t, c * n)
    yield td(8, (b'\xe2\x82\xac' * (n // 3 + 1))[:n // 3 * 3])
    yield td(11, td(8, b'z' * (n - 4)))
    yield td(11, td(11, td(10, b'\xb1' * n)) + b'\x11')
    yield td(13, b'\x84' + td(9, b'z' * n) + b'\x85\x11')
    yield td(14, b'\x81\x84' + td(10, b'z' * n))
    yield td(12, td(14, b'\x81\x84' + td(8, b'a' * n)) + b'\x11')
    yield pad(n) + b'\x11'
    yield td(11, pad(n) + b'\x11')
    yield td(13, b'\x84' + pad(n) + b'\x84\x11')
    if n < 2 ** 20:
        yield td(11, b'\x11' * n)
        yield td(12, b'\x71\x04' * (n // 2 + 1))
        yield td(13, b'\x84\x11' * (n // 2 + 1))
        yield td(14, refbin.varuint(n) + b'\x84' * n + b'\x11')
        yield td(11, td(13, b'\x84' + td(11, b'\x20' * n)) + b'\x71\x04')


def text_docs(n):
    """Text documents with one token (or container) of n units."""
    yield '"%s" 1' % ('z' * n)
    yield "[a, '%s', 2]" % ('\u20ac' * (n // 3 + 1))
    yield "(%s b)" % ('q' * n)
    yield "{f:'''%s''' '''%s''', g:1}" % ('a' * (n - 1), 'b')
    yield "[%s, 1] 2" % ("'''ab''' " * (n // 9))
    yield '/*%s*/ [1]' % (' *' * (n // 2))
    yield '//%s\n1' % ('c' * n)
    yield '[%s1]' % (' ' * n)
    yield '[1%s]' % ('\n' * n)
    yield '{{%s}}' % ('QUJD' * (n // 4))
    yield '[{{"%s"}}, x]' % ('c' * n)
    yield '[%s 1]' % ('1,' * (n // 2))
    yield '(%s)' % ('+ ' * (n // 2))
    yield '{%s}' % ('a:1,' * (n // 4))
    yield 'a::' * (n // 3) + '1'
    yield '1 ' * (n // 2)
    yield '[0x%s]' % ('1' * (n if n % 2 else 4000))
    yield '1.%s' % ('5' * min(n, 4000))


def text(sizes):
    for n in sizes:
        for d in text_docs(n):
            yield d


def binary(sizes):
    for n in sizes:
        for b in binary_values(n):
            yield refbin.IVM + b + b'\x21\x07'


def cuts(n, few=False):
    """Schedules: the cut positions around each limit, and long chunks."""
    for k in (65536, n - 1) if few else (65534, 65535, 65536, 65537, 2 ** 21 - 1, 2 ** 21, n // 2, n - 1, 5, 8):
        if 0 < k < n:
            yield [k]
    for s in (8196, 65535, 65536, 65537, 100000) if not few else (30000,):
        if s < n:
            yield list(range(s, n, s))
