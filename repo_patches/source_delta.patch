From 022089eb96cc89e3531a6e6a99ac891335d65018 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 01/54] fix: quote symbols that read back as symbol identifiers
 or version markers

The text writer wrote the symbols $10 and $ion_2_0 without quotes, which a
reader takes for a symbol ID and a version marker.
---
 amazon/ion/writer_text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..5b83025 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -248,9 +248,12 @@ _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
 _UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
+# text that would read back as a symbol identifier ($10) or as a version marker ($ion_1_0)
+_SID_OR_IVM_REGEX = re.compile(r'\A\$(?:[0-9]+|ion_[0-9]+_[0-9]+)\Z')
 
 def _symbol_needs_quotes(text):
-    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None
+    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None \
+        or _SID_OR_IVM_REGEX.search(text) is not None
 
 def _serialize_symbol_value(value, suffix=b''):
     # TODO Support not quoting operators in s-expressions: http://amzn.github.io/ion-docs/docs/symbols.html
-- 
2.43.0


From 23687ee37b15898cd6cdf00b953a0fd4195404c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 02/54] fix: decode UTF-8 in text given as bytes

The text reader took every byte of a multi-byte UTF-8 sequence in a string or
quoted symbol for a character of its own.
---
 amazon/ion/reader_text.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..14f398e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -154,6 +154,7 @@ _ESCAPED_NEWLINE = u''  # An escaped newline expands to nothing.
 
 _MAX_TEXT_CHAR = 0x10ffff
 _MAX_CLOB_CHAR = 0x7f
+_MAX_ASCII = 0x7f
 _MIN_QUOTED_CHAR = 0x20
 
 # The following suffixes are used for comparison when a token is found that starts with the first letter in
@@ -2168,6 +2169,17 @@ def _skip_trampoline(handler):
 _next_code_point_iter = partial(_next_code_point, yield_char=_NARROW_BUILD)
 
 
+def _utf8_length(c, ctx):
+    """Returns the number of bytes in the UTF-8 sequence that starts with the given byte."""
+    if 0xC2 <= c <= 0xDF:
+        return 2
+    if 0xE0 <= c <= 0xEF:
+        return 3
+    if 0xF0 <= c <= 0xF4:
+        return 4
+    _illegal_character(c, ctx, 'Invalid UTF-8.')
+
+
 @coroutine
 def _next_code_point_handler(whence, ctx):
     """Retrieves the next code point from within a quoted string or symbol."""
@@ -2236,6 +2248,19 @@ def _next_code_point_handler(whence, ctx):
                 yield Transition(None, whence)
         elif low_surrogate_required:
             _illegal_character(code_point, ctx, 'Unpaired high surrogate escape sequence %s.' % (escape_sequence,))
+        elif not queue.is_unicode and code_point > _MAX_ASCII and unicode_escapes_allowed:
+            # This is the first byte of a multi-byte UTF-8 sequence.
+            utf8_sequence = bytearray((code_point,))
+            utf8_length = _utf8_length(code_point, ctx)
+            while len(utf8_sequence) < utf8_length:
+                if len(queue) == 0:
+                    yield ctx.read_data_event(self)
+                utf8_sequence.append(queue.read_byte())
+            try:
+                decoded = _decode(utf8_sequence)
+            except UnicodeDecodeError:
+                _illegal_character(code_point, ctx, 'Invalid UTF-8.')
+            code_point = next(_next_code_point_iter(decoded, iter(decoded), to_int=ord))
         if code_point == _CARRIAGE_RETURN:
             # Normalize all newlines (\r, \n, and \r\n) to \n .
             if len(queue) == 0:
-- 
2.43.0


From 3fc917a2696db76e9e13f64906077cf80888c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 03/54] fix: never take input data for the end-of-input marker

The marker was the literal b'\x04' compared by identity; interpreters share
single-byte strings, so a chunk of input that is just that byte was taken for
the end of the input.
---
 amazon/ion/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..2de7c24 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,11 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EOFType(six.binary_type):
+    """The type of the EOF marker. An instance of it, unlike a bytes literal, is never identical to input data."""
+
+
+_EOF = _EOFType(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From f1c1e822be003fe55ad7e6ae9003064231f8fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 04/54] fix: keep every digit of fractional seconds

Fractions of more digits than the current decimal context has precision were
rounded (or refused) when read from text, normalised to microseconds or
written in binary.
---
 amazon/ion/core.py              | 12 ++++++++----
 amazon/ion/reader_text.py       |  3 ++-
 amazon/ion/writer_binary_raw.py | 10 ++++++++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..e48889d 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -496,8 +496,10 @@ class Timestamp(datetime):
                 fractional_seconds_exponent = 0
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
-            # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            # Scale to microseconds and truncate to an integer. The scaling must not round, hence the precision.
+            scaling_context = Context(prec=len(fractional_seconds.as_tuple().digits) + MICROSECOND_PRECISION + 1)
+            args = replace_microsecond(int(scaling_context.multiply(
+                fractional_seconds, Decimal(BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
@@ -506,8 +508,10 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             else:
                 try:
-                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION)\
-                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
+                    exact_context = Context(traps=[Inexact])
+                    fractional_seconds = Decimal(datetime_microseconds)\
+                        .scaleb(-MICROSECOND_PRECISION, context=exact_context)\
+                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=exact_context)
                 except Inexact:
                     raise ValueError('microsecond value %d cannot be expressed exactly in %d digits.'
                                      % (datetime_microseconds, fractional_precision))
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 14f398e..7f2b8e3 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -926,7 +926,8 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                # The constructor is exact; arithmetic would round to the current decimal context.
+                fraction = Decimal((0, tuple(digit - _ZERO for digit in fraction), -1 * len(fraction)))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..a1431a4 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -170,9 +170,15 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
     return length
 
 
+def _decimal_coefficient(value):
+    """Returns the signed coefficient, independently of the current decimal context."""
+    sign, digits, _ = value.as_tuple()
+    return int(Decimal((sign, digits, 0)))
+
+
 def _write_timestamp_fractional_seconds(buf, value):
-    sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    sign, _, exponent = value.as_tuple()
+    coefficient = _decimal_coefficient(value)
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
-- 
2.43.0


From 0f3ecb20c5cd8a0e0a67ac1f05c0f993189f111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 05/54] fix: read and write binary decimals independently of
 the decimal context

A caller's context with a small exponent range made dumping or loading a
decimal raise or round.
---
 amazon/ion/reader_binary.py     | 11 +++--------
 amazon/ion/writer_binary_raw.py | 10 +++-------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..e343a10 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -186,7 +186,6 @@ def _parse_signed_int_components(buf):
 
 def _parse_decimal(buf):
     """Parses the remainder of a file-like object as a decimal."""
-    from decimal import localcontext
     exponent = _parse_var_int(buf, signed=True)
     sign_bit, coefficient = _parse_signed_int_components(buf)
 
@@ -194,12 +193,8 @@ def _parse_decimal(buf):
         # Handle the zero cases--especially negative zero
         value = Decimal((sign_bit, (0,), exponent))
     else:
-        coefficient *= sign_bit and -1 or 1
-        with localcontext() as context:
-            # Adjusting precision for taking into account arbitrarily
-            # large/small numbers
-            context.prec = len(str(coefficient))
-            value = Decimal(coefficient).scaleb(exponent)
+        # The constructor is exact whatever the current decimal context is.
+        value = Decimal((sign_bit and 1 or 0, Decimal(coefficient).as_tuple().digits, exponent))
 
     return value
 
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a1431a4..009a918 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 
 import six
@@ -190,12 +190,8 @@ def _serialize_decimal(ion_event):
     buf = bytearray()
     value = ion_event.value
     validate_scalar_value(value, Decimal)
-    sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily large/small
-        # numbers
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    sign, _, exponent = value.as_tuple()
+    coefficient = _decimal_coefficient(value)
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
         buf.append(_Zeros.DECIMAL)
-- 
2.43.0


From ba4e289f974171075933ae0f05b45cad9c7f9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 06/54] fix: write timestamps without a precision in text

Timestamp(2000, 1, 1) has no precision; the binary writer takes it to have
seconds, the text writer raised AttributeError.
---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 5b83025..1b86853 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -143,6 +143,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:  # As in the binary writer.
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From ab32ca6b6ab0a6b62588e293048151b0b0ec7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 07/54] fix: write the empty field name in binary

dumps({'': 1}) raised AttributeError because the empty name was taken for no name.
---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From 9ecdee05f4094181f65a08c68d9bc238d4f3c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 08/54] fix: refuse non-finite decimals in text

The text writer wrote Decimal('NaN') as NaNd0, which is a symbol.
---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 1b86853..8a0dca7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -116,6 +116,8 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
+    if not val.is_finite():
+        raise TypeError('Ion has no representation of the decimal %s' % (val,))
     text = str(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
-- 
2.43.0


From 044f285c874629255153a5cd7dc7a667c6b0daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 09/54] fix: end text tokens at vertical tab and form feed

Both are whitespace, but a number, keyword or timestamp followed by one was
refused.
---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 7f2b8e3..33469ff 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From aee96e64d3679de2db620fe2f260ba43a052ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 10/54] fix: skip to the end of the current container in text

After a nested container had ended, skipping stopped at the end of the next
nested container instead of the end of the current one.
---
 amazon/ion/reader_text.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 33469ff..839a160 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2156,14 +2156,18 @@ def _skip_trampoline(handler):
                 trans, delegate, event = pass_through()
                 if event is not None:
                     if event.event_type is IonEventType.CONTAINER_END and event.depth <= depth:
+                        depth = event.depth - 1
                         break
                 if event is None or event.event_type is IonEventType.INCOMPLETE:
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
-                depth = event.depth
+            if event is not None:
+                # Keep the depth of the innermost open container, which is the one that SKIP ends.
+                if event.event_type is IonEventType.CONTAINER_START:
+                    depth = event.depth
+                elif event.event_type is IonEventType.CONTAINER_END:
+                    depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From 9a9ac9eb400cf2d7851ed75958f01b310ce5b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 11/54] fix: let every element of a symbols list take a symbol
 ID

An element that is not a string has unknown text but still occupies its ID;
it was dropped, which shifted the IDs of all later symbols.
---
 amazon/ion/reader_managed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..4892127 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -141,6 +141,9 @@ def _symbols_handler(symbols, whence):
         if ion_type is IonType.STRING:
             # Add the potentially null text.
             symbols.append(ion_event.value)
+        else:
+            # Any other element takes a symbol ID with unknown text.
+            symbols.append(None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 2779eda7de389d6bead2947c57edc428c1d1ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 12/54] fix: treat odd import fields of a symbol table as the
 specification says

An import named $ion or without a name is ignored, an undefined or
non-positive version means 1 and a negative maximum ID is ignored; these
raised errors instead.
---
 amazon/ion/reader_managed.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 4892127..b29e611 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -170,7 +170,8 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # An import without a name, or of the system table, is ignored.
+            if desc.name and desc.name != TEXT_ION:
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
@@ -184,9 +185,13 @@ def _import_desc_handler(ctx, imports, whence):
             if field_name == TEXT_NAME and ion_type is IonType.STRING:
                 desc.name = ion_event.value
             elif field_name == TEXT_VERSION and ion_type is IonType.INT:
-                desc.version = ion_event.value
+                # An undefined version means version 1.
+                desc.version = max(ion_event.value or 1, 1)
             elif field_name == TEXT_MAX_ID and ion_type is IonType.INT:
+                # A negative maximum ID is as good as none.
                 desc.max_id = ion_event.value
+                if desc.max_id is not None and desc.max_id < 0:
+                    desc.max_id = None
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From a74d7bc72c6418a95a501e9a0ce6adddf29b6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 13/54] fix: ignore null imports of a symbol table

imports:null.symbol raised AttributeError.
---
 amazon/ion/reader_managed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index b29e611..b931e7e 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -250,6 +250,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From 427ed92e9f2087b86c6de3f70519e06218dc71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 14/54] fix: honour the default of SymbolTable.get for text
 keys

---
 amazon/ion/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5b3a3e5 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -282,7 +282,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__mapping.get(key, default)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0


From 89fb10df8bb632f67e97103139a6fc29d1f254b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 15/54] fix: tell booleans and numbers of other types apart in
 ion_equals

---
 amazon/ion/equivalence.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..2dc1c3e 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -28,7 +28,7 @@ import six
 
 from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
-    IonPyText, IonPyDecimal, IonPyFloat
+    IonPyText, IonPyDecimal, IonPyFloat, IonPyInt
 from amazon.ion.symbols import SymbolToken
 
 
@@ -90,6 +90,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                     return _decimals_eq(a, b)
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
+                elif isinstance(a, IonPyInt):
+                    return _ints_eq(a, b)
                 else:
                     return a == b
             return False
@@ -107,6 +109,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
+        elif isinstance(a, six.integer_types):
+            return _ints_eq(a, b)
     return a == b
 
 
@@ -227,6 +231,18 @@ def _symbols_eq(a, b):
     return False
 
 
+def _is_bool(x):
+    return isinstance(x, bool) or getattr(x, 'ion_type', None) is IonType.BOOL
+
+
+def _ints_eq(a, b):
+    assert isinstance(a, six.integer_types)
+    if not isinstance(b, six.integer_types):
+        return False
+    # Booleans are a type of their own in Ion.
+    return _is_bool(a) == _is_bool(b) and a == b
+
+
 def _decimals_eq(a, b):
     assert isinstance(a, Decimal)
     if not isinstance(b, Decimal):
-- 
2.43.0


From 159fd39efe50548e083f967aefc6e164271b358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 16/54] fix: compare repeated struct fields as a bag in
 ion_equals

---
 amazon/ion/equivalence.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 2dc1c3e..16ded8a 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -99,7 +99,7 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
         if isinstance(a, list):
             return _sequences_eq(a, b, recursive_comparison_func)
-        elif isinstance(a, dict):
+        elif isinstance(a, (dict, Multimap)):
             return _structs_eq(a, b, recursive_comparison_func)
         elif isinstance(a, datetime):
             return timestamp_comparison_func(a, b)
@@ -149,11 +149,16 @@ def _structs_eq(a, b, comparison_func):
                 return False
             if isinstance(a, Multimap) and isinstance(b, Multimap):
                 values_a = a.get_all_values(key)
-                values_b = b.get_all_values(key)
-                if len(values_a) != len(values_b):
+                unmatched_b = list(b.get_all_values(key))
+                if len(values_a) != len(unmatched_b):
                     return False
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    for i, value_b in enumerate(unmatched_b):
+                        if comparison_func(value_a, value_b):
+                            # Each value may only be matched once.
+                            del unmatched_b[i]
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From aa3ec9540692f34aac7df9c8041fc292faf6fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 17/54] fix: compare plain tuples as sequences in ion_equals

---
 amazon/ion/equivalence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 16ded8a..9b6c716 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -97,14 +97,14 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
-        if isinstance(a, list):
+        if isinstance(a, SymbolToken):
+            return _symbols_eq(a, b)
+        elif isinstance(a, (list, tuple)):
             return _sequences_eq(a, b, recursive_comparison_func)
         elif isinstance(a, (dict, Multimap)):
             return _structs_eq(a, b, recursive_comparison_func)
         elif isinstance(a, datetime):
             return timestamp_comparison_func(a, b)
-        elif isinstance(a, SymbolToken):
-            return _symbols_eq(a, b)
         elif isinstance(a, Decimal):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
@@ -120,7 +120,7 @@ def _annotations_eq(a, b):
 
 def _sequences_eq(a, b, comparison_func):
     assert isinstance(a, (list, tuple))
-    if not isinstance(b, (list, tuple)):
+    if not isinstance(b, (list, tuple)) or isinstance(b, SymbolToken):
         return False
     sequence_len = len(a)
     if sequence_len != len(b):
-- 
2.43.0


From 285ab7069245101b02c91ff36af5cce3da58e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 18/54] fix: compare every digit of fractional seconds in
 ion_equals

---
 amazon/ion/equivalence.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 9b6c716..08bb0d3 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -26,7 +26,8 @@ from math import isnan
 
 import six
 
-from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
+from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap, \
+    TIMESTAMP_FRACTIONAL_SECONDS_FIELD
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
     IonPyText, IonPyDecimal, IonPyFloat, IonPyInt
 from amazon.ion.symbols import SymbolToken
@@ -182,21 +183,37 @@ def _timestamps_eq(a, b):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
                 if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
-                        and a.fractional_seconds == b.fractional_seconds:
+                        and _fractional_seconds_eq(a.fractional_seconds, b.fractional_seconds):
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif a.precision is not TimestampPrecision.SECOND \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
                 # if it has full microseconds precision.
                 return False
     return a == b
 
 
+def _fractional_seconds_eq(a, b):
+    # The number of digits is part of the precision; it exceeds fractional_precision beyond microseconds.
+    return a == b and a.as_tuple().exponent == b.as_tuple().exponent
+
+
+def _fraction_of_second(ts):
+    fractional_seconds = getattr(ts, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, None)
+    if fractional_seconds is None:
+        return Decimal('0.%06d' % ts.microsecond)
+    return fractional_seconds
+
+
 def _timestamp_instants_eq(a, b):
     """Compares two timestamp operands for point-in-time equivalence only."""
     assert isinstance(a, datetime)
     if not isinstance(b, datetime):
         return False
+    if _fraction_of_second(a) != _fraction_of_second(b):
+        # datetime's __eq__ only considers microseconds.
+        return False
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
     # offset (unknown local offset) is treated equivalently to a +00:00.
     if a.tzinfo is None:
-- 
2.43.0


From 6273c519f24e32c7193690b1f2b209abeb7556fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 19/54] fix: normalise negative zero fractional seconds

---
 amazon/ion/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index e48889d..0f97157 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -489,6 +489,7 @@ class Timestamp(datetime):
             raise ValueError('datetime_microseconds cannot be non-zero while fractional_precision is 0.')
 
         if fractional_seconds is not None:
+            fractional_seconds = fractional_seconds.copy_abs()  # Negative zero is zero.
             fractional_seconds_exponent = fractional_seconds.as_tuple().exponent
             if fractional_seconds == DECIMAL_ZERO and fractional_seconds_exponent > 0:
                 # Zero with a positive exponent is just zero. Set the exponent to zero so fractional_precision is
-- 
2.43.0


From 2e109b90c147ef02256d5a646acccd0cfa035ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 20/54] fix: keep repeated fields when copying a Multimap

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 0f97157..22c95d5 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -617,7 +617,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)  # Another Multimap may have multiple values for the key.
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From f54d20974afdb73f6b808e1a477c153b15cf103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 21/54] fix: replace the element on assignment to MultimapValue

---
 amazon/ion/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 22c95d5..dd8d91c 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -665,7 +665,7 @@ class MultimapValue(MutableSequence):
             self.__store = []
 
     def insert(self, index, value):
-        self.__setitem__(index, value)
+        self.__store.insert(index, value)
 
     def __len__(self):
         return len(self.__store)
@@ -674,7 +674,7 @@ class MultimapValue(MutableSequence):
         return self.__store[index]
 
     def __setitem__(self, index, value):
-        self.__store.insert(index, value)
+        self.__store[index] = value
 
     def __delitem__(self, index):
         del self.__store[index]
-- 
2.43.0


From 4976c3cd360139cda9294bc8c1f20f0d044223bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 22/54] fix: return the same member when an Enum is copied or
 unpickled

---
 amazon/ion/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/util.py b/amazon/ion/util.py
index 475a5d7..6fe890c 100644
--- a/amazon/ion/util.py
+++ b/amazon/ion/util.py
@@ -23,6 +23,7 @@ import six
 import sys
 
 from collections import namedtuple
+from operator import getitem
 
 
 class _EnumMetaClass(type):
@@ -91,8 +92,9 @@ class Enum(int):
         self.name = name
         self.value = value
     
-    def __getnewargs__(self):
-        return (self.name, self.value)
+    def __reduce_ex__(self, protocol):
+        # Members are compared by identity, so copying and unpickling must return the member itself.
+        return getitem, (type(self), self.value)
 
     def __str__(self):
         return '<%s.%s: %s>' % (type(self).__name__, self.name, self.value)
-- 
2.43.0


From 23ca019e7c90ea61913a3a41bfc268a13e1ff65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 23/54] fix: keep precision, fraction and Ion nature of copied
 and unpickled timestamps

---
 amazon/ion/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index dd8d91c..2277d33 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -537,6 +537,12 @@ class Timestamp(datetime):
                 self.tzinfo, self.precision,
                 TIMESTAMP_FRACTION_PRECISION_FIELD, self.fractional_precision)
 
+    def __reduce_ex__(self, protocol):
+        # The state of a datetime has neither the precision nor the fractional seconds.
+        args = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
+        return (_restore_timestamp, (type(self), args, self.precision, self.fractional_seconds),
+                getattr(self, '__dict__', None))
+
     @staticmethod
     def adjust_from_utc_fields(*args, **kwargs):
         """Constructs a timestamp from UTC fields adjusted to the local offset if given."""
@@ -566,6 +572,10 @@ class Timestamp(datetime):
         )
 
 
+def _restore_timestamp(cls, args, precision, fractional_seconds):
+    return cls(*args, precision=precision, fractional_seconds=fractional_seconds)
+
+
 def timestamp(year, month=1, day=1,
               hour=0, minute=0, second=0, microsecond=None,
               off_hours=None, off_minutes=None,
-- 
2.43.0


From a5643515b0486a19ddb505ae3dc4286d6c79b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 24/54] fix: keep the Ion nature of copied and unpickled
 decimals

---
 amazon/ion/simple_types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 9db902d..d9da0ef 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -151,11 +151,22 @@ else:
 
 IonPyBool = IonPyInt
 IonPyFloat = _ion_type_for('IonPyFloat', float)
-IonPyDecimal = _ion_type_for('IonPyDecimal', Decimal)
 IonPyText = _ion_type_for('IonPyText', six.text_type)
 IonPyBytes = _ion_type_for('IonPyBytes', six.binary_type)
 
 
+class IonPyDecimal(Decimal, _IonNature):
+    def __init__(self, *args, **kwargs):
+        super(IonPyDecimal, self).__init__(*args, **kwargs)
+
+    # Decimal's own methods drop the Ion type and annotations; without them, __reduce__ is used.
+    __copy__ = None
+    __deepcopy__ = None
+
+    def __reduce__(self):
+        return type(self), (str(self),), self.__dict__
+
+
 class IonPySymbol(SymbolToken, _IonNature):
     def __init__(self, *args, **kwargs):
         super(IonPySymbol, self).__init__(*args, **kwargs)
-- 
2.43.0


From 65ca493550ada5a0465d2b346aa3b8c2af37b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 25/54] fix: do not share the fields of a struct with its
 shallow copy

---
 amazon/ion/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 2277d33..70e3a03 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -629,6 +629,13 @@ class Multimap(MutableMapping):
             for key, value in six.iteritems(args[0]):
                 self.add_item(key, value)  # Another Multimap may have multiple values for the key.
 
+    def __copy__(self):
+        # A shallow copy has the same keys and values, but adding or removing some does not affect the original.
+        copied = self.__class__.__new__(self.__class__)
+        copied.__dict__.update(self.__dict__)
+        copied.__store = OrderedDict((key, MultimapValue(*values)) for key, values in six.iteritems(self.__store))
+        return copied
+
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
 
-- 
2.43.0


From 4bfb6720e7f28b773aa843dac7110892a1151e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 26/54] fix: ignore NOP padding under any field name and refuse
 to annotate it

---
 amazon/ion/reader_binary.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index e343a10..1c15fcc 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -434,9 +434,8 @@ def _ivm_handler(ctx):
 def _nop_pad_handler(ion_type, length, ctx):
     yield
 
-    if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
-        raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+    if ctx.annotations:
+        raise IonException('Cannot annotate a NOP pad.')
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From 6da8fcc3e10b49f79e8372dd9910fc9c1f1123c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 27/54] fix: refuse negative zero integers in binary

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 1c15fcc..3735738 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -637,6 +637,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Negative integers may not have a magnitude of zero.')
         return sign * value
     return parse_int
 
-- 
2.43.0


From b8cfc36e7cf2b457518341095e0efeac0813d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 28/54] fix: read an empty decimal with a separate length field

---
 amazon/ion/reader_binary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 3735738..24e427f 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -652,6 +652,10 @@ def _float_factory(data):
 
 
 def _decimal_factory(data):
+    if not data:
+        # Without the representation, the length of which was given in a separate field.
+        return Decimal()
+
     def parse_decimal():
         return _parse_decimal(BytesIO(data))
 
-- 
2.43.0


From 21caec46ccfa986449c23f6e7c45d74f2f32d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 29/54] fix: refuse an annotated version marker in binary

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 24e427f..cc91030 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -422,6 +422,8 @@ def _ivm_handler(ctx):
 
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
+    if ctx.annotations:
+        raise IonException('IVM encountered in an annotation wrapper')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
-- 
2.43.0


From d91a4fc42a6d9f5a5f17a5c78e354df360e135ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 30/54] fix: read comments after an empty quoted symbol as
 comments

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 839a160..046109e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1629,7 +1629,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().set_quoted_text(False)  # Empty symbol.
+        .immediate_transition(ctx.whence)
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From f546d94411f63f34f3efa33119ea7f66de24bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 31/54] fix: refuse an unclosed block comment after a long
 string

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 046109e..6901d0c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1041,6 +1041,8 @@ def _comment_handler(c, ctx, whence):
     while not done:
         c, _ = yield trans
         if block_comment:
+            if BufferQueue.is_eof(c):
+                _illegal_character(c, ctx, 'Unexpected EOF.')
             if prev == _ASTERISK and c == _SLASH:
                 done = True
             prev = c
-- 
2.43.0


From 487404e06a7c1e96cf54030b79093403e5b0ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 32/54] fix: read the character after a value that follows a
 comment

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 6901d0c..40f9d6c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2048,6 +2048,8 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                # A comment before this token may have set this.
+                child_context.set_self_delimiting(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From cebcf034f1e04c8680e522a02732684e771457fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 33/54] fix: refuse end of input inside a container after a
 one-character token

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 40f9d6c..127da60 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2054,7 +2054,7 @@ def _container_handler(c, ctx):
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
                     handler = _VALUE_START_TABLE[c](c, child_context)  # Initialize the new handler
-                    can_flush = _IMMEDIATE_FLUSH_TABLE[c]
+                    can_flush = ctx.depth == 0 and _IMMEDIATE_FLUSH_TABLE[c]
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
-- 
2.43.0


From 60a8ea89d4f247729a213a0982a755241ef46ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 34/54] fix: read a comment that ends the input after an
 annotated symbol

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 127da60..4cc4692 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1965,7 +1965,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (has_pending_symbol() or not is_value_decorated())
                    )
                )
 
-- 
2.43.0


From cfcebde522d9dd2b9c2c255d38b6ffd85e7a47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 35/54] fix: refuse one-letter field names without a value

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 4cc4692..42173da 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1284,7 +1284,7 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 val.append(c)
                 match_index += 1
         else:
-            if c in _SYMBOL_TOKEN_TERMINATORS:
+            if c in _SYMBOL_TOKEN_TERMINATORS or (is_field_name and _ends_value(c)):
                 # This might be an annotation or a field name
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
-- 
2.43.0


From a28f5f4ac2ed0828621d66214dd9bd7967120f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 36/54] fix: read the character after an operator that follows
 a comment

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 42173da..0f11e09 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2008,6 +2008,8 @@ def _container_handler(c, ctx):
                     # This is the start of a new child value (or, if this is a comment, a new value will start after the
                     # comment ends).
                     child_context = ctx.derive_child_context(self)
+                # A comment before this token may have set this.
+                child_context.set_self_delimiting(False)
                 if ctx.ion_type is IonType.SEXP:
                     handler = _sexp_slash_handler(c, child_context, pending_event=pending_symbol_value())
                 else:
-- 
2.43.0


From 6dcd90d4dbc9c76b9f8f34b8409ad1fd19fe93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 37/54] fix: read symbols that start like inf after a sign in a
 sexp

---
 amazon/ion/reader_text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 0f11e09..7430f1e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1338,7 +1338,8 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
                 ctx.set_unicode()
                 if match_index > 0:
                     next_ctx = ctx.derive_child_context(ctx.whence)
-                    for ch in _INF_SUFFIX[0:match_index]:
+                    # The symbol starts with the characters matched so far; c may be part of it or follow it.
+                    for ch in _INF_SUFFIX[0:match_index - 1]:
                         next_ctx.value.append(ch)
                 break
             c, self = yield trans
@@ -1349,10 +1350,11 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
             if c in _OPERATORS:
                 yield ctx.immediate_transition(_operator_symbol_handler(c, ctx))
             yield ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol())
+        ctx.queue.unread(c)
         yield _CompositeTransition(
             ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol()),
             ctx,
-            partial(_unquoted_symbol_handler, c),
+            partial(_unquoted_symbol_handler, _INF_SUFFIX[match_index - 1]),
             next_ctx
         )
     return inf_or_operator_handler
-- 
2.43.0


From b1b6d7196842ef0e7e74340ad95292e9464829f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 38/54] fix: refuse a time or a day after the T that ends a
 timestamp

---
 amazon/ion/reader_text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 7430f1e..2a35493 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -955,7 +955,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -976,7 +976,9 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From 4f9234b6cf08fcccd9c78e4c2bd64991a9e1e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 39/54] fix: read what follows an empty symbol after a long
 string

---
 amazon/ion/reader_text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 2a35493..23f7d60 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2086,7 +2086,7 @@ def _container_handler(c, ctx):
                         # This is a composite transition, i.e. it is an event transition followed by an immediate
                         # transition to the handler coroutine for the next token.
                         next_transition = trans.next_transition
-                        child_context = trans.next_context
+                        child_context = trans.next_context.set_composite(False)
                         assert next_transition is None or next_transition.event is None
                     else:
                         next_transition = None
@@ -2105,8 +2105,9 @@ def _container_handler(c, ctx):
                             None,
                             _container_handler(c, ctx.derive_container_context(trans.event.ion_type, self))
                         )
-                    complete = ctx.depth == 0
-                    can_flush = False
+                    # An empty symbol after a long string is pending; the input may not end within what it starts.
+                    complete = ctx.depth == 0 and not has_pending_symbol()
+                    can_flush = ctx.depth == 0 and bool(has_pending_symbol())
                     if is_container or is_self_delimiting:
                         # The end of the value has been reached, and c needs to be updated
                         assert not ctx.quoted_text
-- 
2.43.0


From c8b05e3fa88fe72bb0ea68f48a5adc8720bbd6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 40/54] fix: read $ion__0 as a symbol

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 23f7d60..30f9c47 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1478,7 +1478,7 @@ def _symbol_identifier_or_unquoted_symbol_handler(c, ctx, is_field_name=False):
                     if c in _DIGITS:
                         if ivm_post_underscore:
                             complete_ivm = True
-                    elif c == _UNDERSCORE and not ivm_post_underscore:
+                    elif c == _UNDERSCORE and not ivm_post_underscore and prev in _DIGITS:
                         ivm_post_underscore = True
                     else:
                         maybe_ivm = False
-- 
2.43.0


From 55c18cb057ee809be71b16f205ee42d2b04979a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 41/54] fix: do not take an escaped quote for part of a triple
 quote in a clob

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 30f9c47..f7ffec4 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1687,7 +1687,7 @@ def _lob_start_handler(c, ctx):
                 _illegal_character(c, ctx)
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
-        elif c == _SINGLE_QUOTE:
+        elif c == _SINGLE_QUOTE and not _is_escaped(c):
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
-- 
2.43.0


From 40d62fd88b7a10e1b66d3550266e798eb63ea8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 42/54] fix: write numbers of subclasses with another string
 form as numbers in text

---
 amazon/ion/writer_text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 8a0dca7..4b4a0c6 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -87,7 +87,9 @@ def _serialize_scalar_from_string_representation_factory(type_name, types, str_f
 
 
 _serialize_int = _serialize_scalar_from_string_representation_factory(
-    'int', six.integer_types
+    'int', six.integer_types,
+    # Subclasses (e.g. enumerations) may have a different string representation.
+    str_func=lambda val: '%d' % val
 )
 
 
@@ -103,7 +105,7 @@ def _float_str(val):
             return '+inf'
         else:
             return '-inf'
-    text = repr(val)
+    text = float.__repr__(val)
     if _EXPONENT_PAT.search(text) is None:
         text += 'e0'
     return text
@@ -118,7 +120,7 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 def _decimal_str(val):
     if not val.is_finite():
         raise TypeError('Ion has no representation of the decimal %s' % (val,))
-    text = str(val)
+    text = Decimal.__str__(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
         new_text += 'd0'
-- 
2.43.0


From 240305e7bad48fb1d04ede7f55fc9b543e592118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 43/54] fix: refuse to write bool events whose value is not a
 bool

---
 amazon/ion/writer_binary_raw.py | 2 ++
 amazon/ion/writer_text.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 009a918..45203bf 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -105,6 +105,8 @@ _BOOL_FALSE = bytearray([_TypeIds.BOOL_FALSE])
 
 
 def _serialize_bool(ion_event):
+    # IonPyBool, like bool, is an int.
+    validate_scalar_value(ion_event.value, six.integer_types)
     if ion_event.value:
         return _BOOL_TRUE
     else:
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 4b4a0c6..f6eca48 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -61,6 +61,8 @@ _NULL_TYPE_NAMES = [
 
 
 def _serialize_bool(ion_event):
+    # IonPyBool, like bool, is an int.
+    validate_scalar_value(ion_event.value, six.integer_types)
     if ion_event.value:
         return b'true'
     else:
-- 
2.43.0


From 2f3c25ac8f31bcf3e5406d97afa334628a0f7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 44/54] fix: refuse to write lob events whose value is not
 bytes

---
 amazon/ion/writer_binary_raw.py | 1 +
 amazon/ion/writer_text.py       | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 45203bf..92e80d0 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -233,6 +233,7 @@ def _serialize_symbol(ion_event):
 def _serialize_lob_value(event, tid):
     buf = bytearray()
     value = event.value
+    validate_scalar_value(value, (six.binary_type, bytearray, memoryview))
     _write_length(buf, len(value), tid)
     buf.extend(value)
     return buf
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index f6eca48..daa566f 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -293,11 +293,13 @@ _LOB_END = b'}}'
 
 def _serialize_clob(ion_event):
     value = ion_event.value
+    validate_scalar_value(value, (six.binary_type, bytearray, memoryview))
     return _bytes_text(six.iterbytes(value), _DOUBLE_QUOTE, prefix=_LOB_START, suffix=_LOB_END)
 
 
 def _serialize_blob(ion_event):
     value = ion_event.value
+    validate_scalar_value(value, (six.binary_type, bytearray, memoryview))
     return _LOB_START + base64.b64encode(value) + _LOB_END
 
 
-- 
2.43.0


From fc00ad0b325f24e224d85252cd348fc7afa5623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 45/54] fix: do not take time exponential in the depth to
 compare nested structs

---
 amazon/ion/equivalence.py | 44 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 08bb0d3..1a70fc6 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -139,31 +139,29 @@ def _structs_eq(a, b, comparison_func):
     dict_len = len(a)
     if dict_len != len(b):
         return False
-    for a, b in ((a, b), (b, a)):
-        key_iter = six.iterkeys(a)
-        while True:
-            try:
-                key = next(key_iter)
-            except StopIteration:
-                break
-            if key not in b:
+    for key in six.iterkeys(b):
+        if key not in a:
+            return False
+    # One direction is enough for the values: comparing nested structs twice at each level would take exponential time.
+    for key in six.iterkeys(a):
+        if key not in b:
+            return False
+        if isinstance(a, Multimap) and isinstance(b, Multimap):
+            values_a = a.get_all_values(key)
+            unmatched_b = list(b.get_all_values(key))
+            if len(values_a) != len(unmatched_b):
                 return False
-            if isinstance(a, Multimap) and isinstance(b, Multimap):
-                values_a = a.get_all_values(key)
-                unmatched_b = list(b.get_all_values(key))
-                if len(values_a) != len(unmatched_b):
-                    return False
-                for value_a in values_a:
-                    for i, value_b in enumerate(unmatched_b):
-                        if comparison_func(value_a, value_b):
-                            # Each value may only be matched once.
-                            del unmatched_b[i]
-                            break
-                    else:
-                        return False
-            else:
-                if not comparison_func(a[key], b[key]):
+            for value_a in values_a:
+                for i, value_b in enumerate(unmatched_b):
+                    if comparison_func(value_a, value_b):
+                        # Each value may only be matched once.
+                        del unmatched_b[i]
+                        break
+                else:
                     return False
+        else:
+            if not comparison_func(a[key], b[key]):
+                return False
 
     return True
 
-- 
2.43.0


From 267c88cf6f3170d9126717e346df8d0d9a76f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 46/54] fix: refuse to write UTC offsets that are not whole
 minutes

---
 amazon/ion/writer.py            | 5 +++++
 amazon/ion/writer_binary_raw.py | 3 ++-
 amazon/ion/writer_text.py       | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/writer.py b/amazon/ion/writer.py
index d290dec..798ebcf 100644
--- a/amazon/ion/writer.py
+++ b/amazon/ion/writer.py
@@ -62,6 +62,11 @@ def illegal_state_null(ion_event):
     validate_scalar_value(ion_event.value, type(None))
 
 
+def validate_utc_offset(offset):
+    if offset.seconds % 60 or offset.microseconds:
+        raise ValueError('UTC offset %s is not a whole number of minutes.' % (offset,))
+
+
 def _serialize_null(ion_event, null_table):
     return null_table[ion_event.ion_type]
 
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 92e80d0..3fb13e2 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -34,7 +34,7 @@ from .core import IonEventType, IonType, DataEvent, Transition, TimestampPrecisi
 from .util import coroutine, total_seconds, Enum
 from .writer import NOOP_WRITER_EVENT, WriteEventType, \
                     writer_trampoline, partial_transition, serialize_scalar, \
-                    validate_scalar_value, illegal_state_null
+                    validate_scalar_value, validate_utc_offset, illegal_state_null
 from .writer_binary_raw_fields import _write_varuint, _write_uint, _write_varint, _write_int
 
 
@@ -257,6 +257,7 @@ def _serialize_timestamp(ion_event):
     else:
         # Normalize to UTC and write the offset field.
         offset = dt.utcoffset()
+        validate_utc_offset(offset)
         dt -= offset
         length = _write_varint(value_buf, int(total_seconds(offset) // 60))
     length += _write_varuint(value_buf, dt.year)
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index daa566f..f6cfd02 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -38,7 +38,7 @@ from .core import DataEvent, Transition, IonEventType, IonType, TIMESTAMP_PRECIS
     _ZERO_DELTA, TIMESTAMP_FRACTION_PRECISION_FIELD, MICROSECOND_PRECISION, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, \
     Timestamp, DECIMAL_ZERO
 from .writer import partial_transition, writer_trampoline, serialize_scalar, validate_scalar_value, \
-    illegal_state_null, NOOP_WRITER_EVENT
+    validate_utc_offset, illegal_state_null, NOOP_WRITER_EVENT
 from .writer import WriteEventType
 
 _IVM_WRITER_EVENT = DataEvent(WriteEventType.COMPLETE, symbols.TEXT_ION_1_0.encode())
@@ -141,6 +141,7 @@ def _bytes_utc_offset(dt):
         return '-00:00'
     elif offset == _ZERO_DELTA:
         return 'Z'
+    validate_utc_offset(offset)
     offset_str = dt.strftime('%z')
     offset_str = offset_str[:3] + ':' + offset_str[3:]
     return offset_str
-- 
2.43.0


From d4bd3a610473633a7cf0fd749b6b09ba1bc35652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 47/54] fix: refuse NaN fractional seconds with ValueError

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 70e3a03..9679c06 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -471,7 +471,7 @@ class Timestamp(datetime):
         if TIMESTAMP_FRACTIONAL_SECONDS_FIELD in kwargs:
             fractional_seconds = kwargs.get(TIMESTAMP_FRACTIONAL_SECONDS_FIELD)
             if fractional_seconds is not None:
-                if not (0 <= fractional_seconds < 1):
+                if fractional_seconds.is_nan() or not (0 <= fractional_seconds < 1):
                     raise ValueError('Cannot construct a Timestamp with fractional seconds of %s, '
                                      'which is out of the supported range of [0, 1).'
                                      % str(fractional_seconds))
-- 
2.43.0


From bd5b6551f469d356daecc57d8458afe7acc8a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 48/54] fix: write plain values whose field name has unknown
 text

---
 amazon/ion/simpleion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..a80b867 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -35,7 +35,7 @@ from .reader_binary import binary_reader
 from .reader_managed import managed_reader
 from .simple_types import IonPyList, IonPyDict, IonPyNull, IonPyBool, IonPyInt, IonPyFloat, IonPyDecimal, \
     IonPyTimestamp, IonPyText, IonPyBytes, IonPySymbol, is_null
-from .symbols import SymbolToken
+from .symbols import SymbolToken, SYMBOL_ZERO_TOKEN
 from .writer import blocking_writer
 from .writer_binary import binary_writer
 
@@ -202,6 +202,8 @@ def _ion_type(obj, from_type):
 
 
 def _dump(obj, writer, from_type, field=None, in_struct=False, depth=0):
+    if in_struct and field is None:
+        field = SYMBOL_ZERO_TOKEN
     null = is_null(obj)
     try:
         ion_type = obj.ion_type
-- 
2.43.0


From 11f7668f7858d276e16367b0db4116105f2745c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 49/54] fix: detect binary Ion in files whose reads return few
 bytes

---
 amazon/ion/simpleion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index a80b867..3260701 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -357,7 +357,12 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
     if isinstance(fp, _TEXT_TYPES):
         raw_reader = text_reader(is_unicode=True)
     else:
-        maybe_ivm = fp.read(4)
+        maybe_ivm = fp.read(len(_IVM))
+        while maybe_ivm and len(maybe_ivm) < len(_IVM):  # A read may return less than requested before the end.
+            rest = fp.read(len(_IVM) - len(maybe_ivm))
+            if not rest:
+                break
+            maybe_ivm += rest
         fp.seek(0)
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
-- 
2.43.0


From b068b5e3e746371b65e1c09fd309e68211bac4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 50/54] fix: ignore empty data given to the reader's buffer
 queue

---
 amazon/ion/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 2de7c24..da8ad1c 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -148,6 +148,9 @@ class BufferQueue(object):
         # TODO Determine if we should use memoryview to avoid copying.
         if not isinstance(data, self.__element_type):
             BufferQueue._incompatible_types(self.__element_type, data)
+        if len(data) == 0:
+            # An empty segment holds nothing to consume, so the methods that consume could not move past it.
+            return
         self.__segments.append(data)
         self.__size += len(data)
 
-- 
2.43.0


From bdc90a3b113c117f36b1cfcf52baf7758361e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 51/54] fix: write decimals beyond the range of a double as
 JSON null

---
 amazon/ion/json_encoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/json_encoder.py b/amazon/ion/json_encoder.py
index de5ec98..cd5c737 100644
--- a/amazon/ion/json_encoder.py
+++ b/amazon/ion/json_encoder.py
@@ -54,7 +54,9 @@ class IonToJSONEncoder(JSONExtendedEncoder):
         elif isinstance(o, IonPyBytes) and o.ion_type == IonType.CLOB:
             return text_type("").join(chr(b) for b in o)
         elif isinstance(o, IonPyDecimal) and o.ion_type == IonType.DECIMAL:
-            return float(o)
+            value = float(o)
+            # Like the infinities of float, a value beyond the range of a double has no JSON spelling.
+            return None if value in (float("inf"), float("-inf")) else value
         elif isinstance(o, IonPySymbol) and o.ion_type == IonType.SYMBOL:
             return o.text
         elif isinstance(o, IonPyTimestamp) and o.ion_type == IonType.TIMESTAMP:
-- 
2.43.0


From ffd8f7f74a906d29b049490b61c7cc98f771c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:16 +0000
Subject: [PATCH 52/54] fix: write a datetime whose tzinfo gives no offset with
 unknown offset in binary, as in text

---
 amazon/ion/writer_binary_raw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 3fb13e2..b90922d 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -251,12 +251,12 @@ def _serialize_timestamp(ion_event):
         precision = TimestampPrecision.SECOND
     validate_scalar_value(dt, datetime)
     value_buf = bytearray()
-    if dt.tzinfo is None:
+    offset = dt.utcoffset()
+    if offset is None:
         value_buf.append(_VARINT_NEG_ZERO)  # This signifies an unknown local offset.
         length = 1
     else:
         # Normalize to UTC and write the offset field.
-        offset = dt.utcoffset()
         validate_utc_offset(offset)
         dt -= offset
         length = _write_varint(value_buf, int(total_seconds(offset) // 60))
-- 
2.43.0


From 5829bf03a41ea6c36e5fca53ec61066e63a72900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 53/54] fix: compare a datetime whose tzinfo gives no offset as
 one of unknown offset

---
 amazon/ion/equivalence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 1a70fc6..c673de0 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -172,8 +172,6 @@ def _timestamps_eq(a, b):
     if not isinstance(b, datetime):
         return False
     # Local offsets must be equivalent.
-    if (a.tzinfo is None) ^ (b.tzinfo is None):
-        return False
     if a.utcoffset() != b.utcoffset():
         return False
     for a, b in ((a, b), (b, a)):
@@ -214,9 +212,9 @@ def _timestamp_instants_eq(a, b):
         return False
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
     # offset (unknown local offset) is treated equivalently to a +00:00.
-    if a.tzinfo is None:
+    if a.utcoffset() is None:
         a = a.replace(tzinfo=OffsetTZInfo())
-    if b.tzinfo is None:
+    if b.utcoffset() is None:
         b = b.replace(tzinfo=OffsetTZInfo())
     # datetime's __eq__ implementation compares instants; offsets and precision need not be equal.
     return a == b
-- 
2.43.0


From 42b1121a1dcec6a1128f170b7ccc9076dd9da300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:49 +0000
Subject: [PATCH 54/54] fix: refuse indentation that is not whitespace of the
 Ion text grammar

---
 amazon/ion/writer_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index f6cfd02..17cadb5 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -458,7 +458,8 @@ def raw_writer(indent=None):
         ``HAS_PENDING`` :class:`WriteEventType` events.
     """
 
-    is_whitespace_str = isinstance(indent, str) and re.search(r'\A\s*\Z', indent, re.M) is not None
+    # Only the whitespace of the Ion grammar; that of Unicode is not legal between tokens.
+    is_whitespace_str = isinstance(indent, str) and re.search(r'\A[ \t\n\r\v\f]*\Z', indent) is not None
     if not (indent is None or is_whitespace_str):
         raise ValueError('The indent parameter must either be None or a string containing only whitespace')
 
-- 
2.43.0

