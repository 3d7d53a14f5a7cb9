# -*- coding: utf-8 -*-
"""Reference parser for Ion 1.0 text, written from the specification and independent of amazon.ion.

parse_raw(text) -> list of raw nodes (syms are str or ('$', sid)) and 'IVM' marks.
parse_stream(text, catalog) -> resolved user nodes.
RefError: not Ion. Unspecified: the specification leaves it open, or this reference does not decide it.
"""
import base64
import re
import struct as _struct
import datetime

from .refsym import Context, RefError, Unspecified
from .model import fbits, TYPES

WS = ' \t\v\f\n\r'
STOP = '{}[](),"\'' + WS
IDENT_RE = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*')
OPS = '!#%&*+-./;<=>?@^`|~'
KEYWORDS = ('null', 'true', 'false', 'nan')
TOKEN_RE = re.compile(r'[-+0-9A-Za-z_.:$]*')
INT_RE = re.compile(r'-?(?:0|[1-9](?:_?[0-9])*)\Z')
HEX_RE = re.compile(r'(-?)0[xX]([0-9a-fA-F](?:_?[0-9a-fA-F])*)\Z')
BIN_RE = re.compile(r'(-?)0[bB]([01](?:_?[01])*)\Z')
DEC_RE = re.compile(r'(-?)(0|[1-9](?:_?[0-9])*)(\.(?:[0-9](?:_?[0-9])*)?)?(?:([dDeE])([+-]?[0-9]+))?\Z')
EXP_UNDERSCORE = re.compile(r'[dDeE][+-]?[0-9_]*_[0-9_]*\Z')
TS_RE = re.compile(r'(\d{4})(?:T|-(\d\d)(?:T|-(\d\d)(?:T(?:(\d\d):(\d\d)(?::(\d\d)(?:\.(\d+))?)?(Z|[+-]\d\d:\d\d))?)?))\Z')
NUMSTART = re.compile(r'-?[0-9]')
IVM_RE = re.compile(r'\$ion_[0-9]+_[0-9]+\Z')
SID_RE = re.compile(r'\$[0-9]+\Z')
SIMPLE_ESC = {'0': '\0', 'a': '\x07', 'b': '\x08', 't': '\t', 'n': '\n', 'f': '\x0c', 'r': '\r', 'v': '\x0b', '"': '"', "'": "'", '?': '?', '\\': '\\', '/': '/'}
HEXD = '0123456789abcdefABCDEF'


class Parser(object):
    def __init__(self, text):
        self.s = text
        self.n = len(text)
        self.p = 0

    def peek(self, k=0):
        i = self.p + k
        return self.s[i] if i < self.n else ''

    def at(self, t):
        return self.s.startswith(t, self.p)

    def ws(self):
        """Whitespace and comments."""
        while self.p < self.n:
            c = self.s[self.p]
            if c in WS:
                self.p += 1
            elif c == '/' and self.peek(1) == '/':
                while self.p < self.n and self.s[self.p] not in '\n\r':
                    self.p += 1
            elif c == '/' and self.peek(1) == '*':
                e = self.s.find('*/', self.p + 2)
                if e < 0:
                    raise RefError('unclosed comment')
                self.p = e + 2
            else:
                return

    def only_ws(self):
        while self.p < self.n and self.s[self.p] in WS:
            self.p += 1

    # ---- values ------------------------------------------------------------------------------------------------

    def top(self):
        out = []
        self.ws()
        while self.p < self.n:
            v = self.value('top')
            out.append(v)
            self.ws()
        return out

    def value(self, ctx):
        """One annotated value; the position is at its first character."""
        annots = []
        while True:
            start = self.p
            got = self.symbol_token()
            if got is None:
                break
            kind, sym = got
            after = self.p
            self.ws()
            if self.at('::'):
                if kind == 'keyword':
                    raise RefError('keyword as annotation')
                self.p += 2
                annots.append(sym)
                self.ws()
                continue
            self.p = after
            if ctx == 'top' and kind != 'quoted' and self.peek() in ('+', '-'):
                raise Unspecified('a sign right after a word')   # the ANTLR grammar takes a-1 as two values
            if kind == 'keyword':
                self.p = start
                break
            if kind == 'ident' and ctx == 'top' and not annots and IVM_RE.match(sym if isinstance(sym, str) else ''):
                if sym != '$ion_1_0':
                    raise RefError('version %s' % sym)
                return 'IVM'
            return (tuple(annots), 'symbol', sym)
        t, v = self.bare(ctx)
        return (tuple(annots), t, v)

    def symbol_token(self):
        """(kind, sym) if the position is at a symbol, keyword or quoted symbol, consumed; else None."""
        c = self.peek()
        if c == "'":
            if self.at("'''"):
                return None
            return 'quoted', self.quoted("'")
        m = IDENT_RE.match(self.s, self.p)
        if not m:
            return None
        w = m.group()
        self.p = m.end()
        if w in KEYWORDS:
            return 'keyword', w
        if SID_RE.match(w):
            if len(w) > 2 and w[1] == '0':
                raise Unspecified('leading zero in symbol identifier')
            return 'sid', ('$', int(w[1:]))
        return 'ident', w

    def bare(self, ctx):
        c = self.peek()
        if c == '':
            raise RefError('value expected at the end')
        if c == '"':
            return 'string', self.quoted('"')
        if self.at("'''"):
            return 'string', self.long_strings()
        if c == '[':
            return 'list', self.seq(']')
        if c == '(':
            return 'sexp', self.sexp()
        if c == '{':
            if self.peek(1) == '{':
                return self.lob()
            return 'struct', self.struct()
        m = IDENT_RE.match(self.s, self.p)
        if m:
            w = m.group()
            self.p = m.end()
            return self.keyword(w, ctx)
        if c in '+-' and self.s.startswith('inf', self.p + 1):
            e = self.p + 4
            nxt = self.s[e:e + 1]
            if nxt == '' or nxt in STOP:
                self.p = e
                return 'float', fbits(float(c + 'inf'))
            if nxt == '/':
                if self.s[e:e + 2] in ('//', '/*'):
                    self.p = e
                    return 'float', fbits(float(c + 'inf'))
                raise Unspecified('/ after a numeric')
            if nxt in OPS or nxt == ':':
                raise Unspecified('%s after inf' % nxt)
        if NUMSTART.match(self.s, self.p):
            return self.number(ctx)
        if ctx == 'sexp' and c in OPS:
            return 'symbol', self.operator()
        raise RefError('unexpected %r' % c)

    def operator(self):
        start = self.p
        while self.peek() and self.peek() in OPS:
            if self.p > start and (self.at('//') or self.at('/*')):
                raise Unspecified('comment start inside an operator')
            self.p += 1
        w = self.s[start:self.p]
        if w[-1] in '+-' and self.s.startswith('inf', self.p) and len(w) > 1:
            raise Unspecified('operator then inf')
        save = self.p
        self.ws()
        bad = self.at('::')
        self.p = save
        if bad:
            raise RefError('operator as annotation')
        return w

    def keyword(self, w, ctx):
        if w == 'true':
            return 'bool', True
        if w == 'false':
            return 'bool', False
        if w == 'nan':
            return 'float', 'nan'
        if w != 'null':
            raise RefError(w)
        if self.peek() == '.':
            m = IDENT_RE.match(self.s, self.p + 1)
            if m and m.group() in TYPES:
                self.p = m.end()
                if ctx == 'top' and self.peek() in ('+', '-'):
                    raise Unspecified('a sign right after a word')
                return m.group(), None
            if ctx == 'sexp' and not m:
                raise Unspecified('null followed by an operator')
            raise RefError('null.?')
        return 'null', None

    def number(self, ctx):
        m = TOKEN_RE.match(self.s, self.p)
        w = m.group()
        nxt = self.s[m.end():m.end() + 1]
        if nxt and nxt not in STOP:
            if nxt == '/':
                if self.s[m.end():m.end() + 2] not in ('//', '/*'):
                    if ctx == 'sexp':
                        raise Unspecified('/ after a number')
                    raise RefError('/ after a number')
            else:
                raise RefError('%r after a number' % nxt)
        if INT_RE.match(w):
            r = 'int', int(w.replace('_', ''))
        else:
            r = self.number2(w)
        self.p = m.end()
        return r

    def number2(self, w):
        for rx, base in ((HEX_RE, 16), (BIN_RE, 2)):
            m = rx.match(w)
            if m:
                n = int(m.group(2).replace('_', ''), base)
                return 'int', -n if m.group(1) else n
        m = DEC_RE.match(w)
        if m:
            sign, ip, fp, ec, ex = m.groups()
            ip = ip.replace('_', '')
            fp = (fp or '').replace('_', '')[1:]
            e = int(ex) if ex else 0
            if ec and ec in 'eE':
                return 'float', fbits(float('%s%s.%se%d' % (sign, ip, fp or '0', e)))
            return 'decimal', (1 if sign else 0, int((ip + fp).lstrip('0') or '0'), e - len(fp))
        if EXP_UNDERSCORE.search(w) and DEC_RE.match(w.replace('_', '')):
            if not re.search(r'(?<![0-9])_|_(?![0-9])', w):
                raise Unspecified('underscore between the digits of an exponent')
        m = TS_RE.match(w)
        if m:
            return 'timestamp', self.timestamp(*m.groups())
        raise RefError('number %r' % w)

    @staticmethod
    def timestamp(y, mo, d, h, mi, s, frac, off):
        try:
            datetime.datetime(int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(s or 0))
        except ValueError as e:
            raise RefError(str(e))
        y = int(y)
        if h is None:
            if d is not None:
                return ('D', y, int(mo), int(d), None, None, None, None, None)
            if mo is not None:
                return ('M', y, int(mo), None, None, None, None, None, None)
            return ('Y', y, None, None, None, None, None, None, None)
        o = None
        if off == 'Z':
            o = 0
        elif off != '-00:00':
            oh, om = int(off[1:3]), int(off[4:6])
            if oh > 23 or om > 59:
                raise RefError('offset')
            o = oh * 60 + om
            if off[0] == '-':
                o = -o
            try:
                datetime.datetime(y, int(mo), int(d), int(h), int(mi)) - datetime.timedelta(minutes=o)
            except OverflowError:
                raise Unspecified('UTC year out of range')
        if s is None:
            return ('m', y, int(mo), int(d), int(h), int(mi), None, None, o)
        return ('s', y, int(mo), int(d), int(h), int(mi), int(s), (int(frac), len(frac)) if frac else None, o)

    # ---- containers --------------------------------------------------------------------------------------------

    def seq(self, end):
        self.p += 1
        out = []
        self.ws()
        while True:
            if self.peek() == end:
                self.p += 1
                return tuple(out)
            out.append(self.value('list'))
            self.ws()
            if self.peek() == ',':
                self.p += 1
                self.ws()
            elif self.peek() != end:
                raise RefError('comma expected')

    def sexp(self):
        self.p += 1
        out = []
        while True:
            self.ws()
            c = self.peek()
            if c == '':
                raise RefError('unclosed sexp')
            if c == ')':
                self.p += 1
                return tuple(out)
            out.append(self.value('sexp'))

    def struct(self):
        self.p += 1
        out = []
        self.ws()
        while True:
            if self.peek() == '}':
                self.p += 1
                return tuple(out)
            name = self.field_name()
            self.ws()
            if self.peek() != ':':
                raise RefError('colon expected')
            self.p += 1
            if self.peek() == ':':
                raise RefError(':: after a field name')
            self.ws()
            out.append((name, self.value('struct')))
            self.ws()
            if self.peek() == ',':
                self.p += 1
                self.ws()
            elif self.peek() != '}':
                raise RefError('comma expected')

    def field_name(self):
        if self.at("'''"):
            return self.long_strings()
        if self.peek() == '"':
            return self.quoted('"')
        got = self.symbol_token()
        if got is None or got[0] == 'keyword':
            raise RefError('field name')
        return got[1]

    # ---- text --------------------------------------------------------------------------------------------------

    def escape(self, clob):
        """At a backslash; returns the text."""
        c = self.peek(1)
        if c == '':
            raise RefError('escape at the end')
        self.p += 2
        if c in SIMPLE_ESC:
            return SIMPLE_ESC[c]
        if c == '\n':
            return ''
        if c == '\r':
            if self.peek() == '\n':
                self.p += 1
            return ''
        width = {'x': 2, 'u': 4, 'U': 8}.get(c)
        if width is None or (clob and c != 'x'):
            raise RefError('escape \\%s' % c)
        h = self.s[self.p:self.p + width]
        if len(h) != width or any(x not in HEXD for x in h):
            raise RefError('hex escape')
        self.p += width
        v = int(h, 16)
        if v > 0x10ffff:
            raise RefError('code point')
        if 0xd800 <= v < 0xdc00:
            if self.peek() == '\\' and self.peek(1) in ('u', 'U'):
                raise Unspecified('surrogate pair escapes')
            raise RefError('unpaired surrogate')
        if 0xdc00 <= v < 0xe000:
            raise RefError('unpaired surrogate')
        return chr(v)

    def quoted(self, q, clob=False):
        self.p += 1
        out = []
        while True:
            c = self.peek()
            if c == '':
                raise RefError('unclosed')
            if c == q:
                self.p += 1
                return ''.join(out)
            if c == '\\':
                out.append(self.escape(clob))
                continue
            self.check_char(c, clob, False)
            out.append(c)
            self.p += 1

    @staticmethod
    def check_char(c, clob, long_):
        o = ord(c)
        if o < 0x20:
            if c in '\t\v\f' or (long_ and c in '\r\n'):
                return
            raise RefError('control character')
        if clob and o > 0x7f:
            raise RefError('non-ASCII clob character')
        if 0xd800 <= o < 0xe000:
            raise RefError('surrogate')

    def long_strings(self, clob=False):
        out = []
        while True:
            self.p += 3
            while not self.at("'''"):
                c = self.peek()
                if c == '':
                    raise RefError('unclosed')
                if c == '\\':
                    out.append(self.escape(clob))
                    continue
                self.check_char(c, clob, True)
                if c == '\r':
                    c = '\n'
                    if self.peek(1) == '\n':
                        self.p += 1
                out.append(c)
                self.p += 1
            self.p += 3
            save = self.p
            if clob:
                self.only_ws()
            else:
                self.ws()
            if not self.at("'''"):
                self.p = save
                return ''.join(out)

    def lob(self):
        self.p += 2
        self.only_ws()
        if self.peek() == '"':
            t, v = 'clob', self.quoted('"', True).encode('latin-1')
        elif self.at("'''"):
            t, v = 'clob', self.long_strings(True).encode('latin-1')
        else:
            e = self.s.find('}', self.p)
            if e < 0:
                raise RefError('unclosed lob')
            b = ''.join(c for c in self.s[self.p:e] if c not in WS)
            if not re.match(r'(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?\Z', b):
                raise RefError('base64')
            t, v = 'blob', base64.b64decode(b)
            if base64.b64encode(v).decode() != b:
                raise Unspecified('trailing bits in base64')
            self.p = e
        self.only_ws()
        if not self.at('}}'):
            raise RefError('lob end')
        self.p += 2
        return t, v


def parse_raw(text):
    return Parser(text).top()


def parse_stream(text, catalog=None):
    ctx = Context(catalog)
    out = []
    for v in parse_raw(text):
        if v == 'IVM':
            ctx.reset()
        else:
            ctx.top_level(v, out)
    return out


# ---- renderer --------------------------------------------------------------------------------------------------

ESC = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', "'": "\\'"}


def _quoted(s, q, style):
    out = []
    for k, c in enumerate(s):
        o = ord(c)
        if c in ESC:
            out.append(ESC[c])
        elif o < 0x20 or o == 0x7f:
            out.append('\\x%02x' % o)
        elif style == 1 and k % 2 == 0:
            out.append('\\x%02X' % o if o < 0x100 else '\\u%04x' % o if o < 0x10000 else '\\U%08X' % o)
        elif style == 2 and o < 0x10000 and not 0xd800 <= o < 0xe000:
            out.append('\\u%04X' % o)
        else:
            out.append(c)
    return q + ''.join(out) + q


def _digits(n, style):
    s = str(abs(n))
    if style == 1 and len(s) > 1:
        s = s[0] + '_' + '_'.join(s[1 + k:4 + k] for k in range(0, len(s) - 1, 3))
    return s


def render(node, style=0):
    """A spelling of the node: 0 plain, 1 with underscores, escapes and loose whitespace, 2 hexadecimal, binary, long strings, comments."""
    a, t, p = node
    if t == 'symbol' and p is not None:
        v = _sym(p, style)
    elif p is None:
        v = 'null' if t == 'null' and style != 2 else 'null.' + t
    elif t == 'bool':
        v = 'true' if p else 'false'
    elif t == 'int':
        v = '-' if p < 0 else ''
        if style == 2:
            v += ('0x%x' if p % 3 else '0X%X') % abs(p) if p % 2 else '0b' + bin(abs(p))[2:]
        else:
            v += _digits(p, style)
    elif t == 'float':
        if p == 'nan':
            v = 'nan'
        else:
            x = _struct.unpack(">d", bytes.fromhex(p))[0]
            if x in (float('inf'), float('-inf')):
                v = '+inf' if x > 0 else '-inf'
            else:
                v = repr(x) if style != 2 else '%.17e' % x
                v = v if 'e' in v else v + 'e0'
                if style == 1:
                    v = v.replace('e', 'E')
    elif t == 'decimal':
        s, c, e = p
        v = '-' if s else ''
        d = str(c)
        if style == 0 and 0 < -e < len(d):
            v += d[:e] + '.' + d[e:]
        elif style == 2 and e <= 0 and -e < 30 and len(d) <= -e:
            v += '0.' + d.rjust(-e, '0') if e else d + '.'
        elif style == 1:
            v += _digits(c, 1) + 'D%+d' % e
        else:
            v += d + 'd%d' % e
    elif t == 'timestamp':
        prec, y, mo, dd, h, mi, s, frac, off = p
        k = 'YMDms'.index(prec)
        v = '%04d' % y + ('-%02d' % mo if k else '') + ('-%02d' % dd if k > 1 else '')
        if k < 2 or (k == 2 and style == 1):
            v += 'T'
        if k > 2:
            v += 'T%02d:%02d' % (h, mi)
            if k > 3:
                v += ':%02d' % s + ('.%s' % str(frac[0]).rjust(frac[1], '0') if frac else '')
            v += '-00:00' if off is None else 'Z' if off == 0 and style != 2 else ('-' if off < 0 else '+') + '%02d:%02d' % divmod(abs(off), 60)
    elif t == 'string':
        if style == 2:
            h = len(p) // 2
            v = _quoted(p[:h], "'''", 0) + ' /* c */ ' + _quoted(p[h:], "'''", 0)
        else:
            v = _quoted(p, '"', style)
    elif t == 'clob':
        s = ''.join('\\x%02x' % b if b >= 0x7f or style == 1 else chr(b) for b in p) if style == 1 else None
        if s is not None:
            v = '{{ "%s" }}' % s
        else:
            body = ''.join(ESC.get(chr(b)) or (chr(b) if 0x20 <= b < 0x7f else '\\x%02x' % b) for b in p)
            v = '{{"%s"}}' % body if style == 0 else "{{'''%s'''\n'''''' }}" % body
    elif t == 'blob':
        b = base64.b64encode(p).decode()
        if style:
            b = '\n'.join(b[k:k + 5 * style] for k in range(0, len(b), 5 * style))
        v = '{{%s}}' % b
    elif t == 'struct':
        sep = (',', ' ,\n', '/**/,// x\n')[style]
        v = '{' + sep.join(_sym(f, style if style else 0, field=True) + (':', ' : ', '/*:*/:')[style] + render(x, style) for f, x in p) + (',}' if style == 1 and p else '}')
    elif t == 'list':
        v = '[' + (',', ' ,\t', '//,\n,')[style].join(render(x, style) for x in p) + ('\n,]' if style == 1 and p else ']')
    else:
        v = '(' + (' ', '\r\n', '/* */')[style].join(render(x, 1 if x[1] == 'string' else style) for x in p) + ')'
    return ''.join(_sym(s, style) + ('::', ' ::', '::\n')[style] for s in a) + v


def _sym(s, style, field=False):
    if s == 0:
        return '$0'
    if style == 0 and IDENT_RE.fullmatch(s) and s not in KEYWORDS and not SID_RE.match(s):
        return s
    if field and style == 2:
        return _quoted(s, "'''", 0)
    if field and style == 1:
        return _quoted(s, '"', 1)
    return _quoted(s, "'", style)
