From 45d9e91dc79a2fa1508721896d9815aff5f9cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 01/27] fix: SGR sequences with private or oversized parameters
 no longer crash the app

---
 .../byteio/template/template_escape_sgr.py     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..ca7f2d3 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -36,7 +36,7 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._details_fmt_str = s.decode('ascii')
 
         params = self._details_fmt_str.split(';')
-        pcodes = [int(p.split(":")[0]) for p in params if p]
+        pcodes = [self._parse_param(p) for p in params if p]
         pcodes_allowed = []
         brief_names = []
         while len(pcodes):  # @TODO automatically set black/white text if only bg color is defined, and vice versa
@@ -44,11 +44,11 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
 
             if pcode == IntCodes.COLOR_EXTENDED or pcode == IntCodes.BG_COLOR_EXTENDED:
                 brief_type = 'F' if pcode == IntCodes.COLOR_EXTENDED else 'B'
-                if len(pcodes) >= 2 and pcodes[0] == IntCodes.EXTENDED_MODE_256:
+                if pcodes[:1] == [IntCodes.EXTENDED_MODE_256] and self._starts_with_codes(pcodes, 2):
                     pcodes_allowed.extend([pcode, pcodes.pop(0), pcodes.pop(0)])
                     brief_names.append(f'{brief_type}{pcodes_allowed[-1]}')
                     continue
-                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:
+                if pcodes[:1] == [IntCodes.EXTENDED_MODE_RGB] and self._starts_with_codes(pcodes, 4):
                     pcodes_allowed.extend([pcode, *[pcodes.pop(0) for _ in range(4)]])
                     brief_names.append(
                         f'{brief_type}'
@@ -62,6 +62,18 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._brief_details_processed = f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'.join(str(bn) for bn in brief_names)
         self._details_opening_seq = SequenceSGR(*pcodes_allowed)
 
+    @staticmethod
+    def _parse_param(param: str) -> int|str:
+        """ Private parameters, like '?25' or '>4', have no numeric code and are kept as is. """
+        try:
+            return int(param.split(":")[0])
+        except ValueError:
+            return param
+
+    @staticmethod
+    def _starts_with_codes(pcodes: list, amount: int) -> bool:
+        return len(pcodes) >= amount and all(isinstance(pcode, int) for pcode in pcodes[:amount])
+
     def _get_brief_details_processed(self) -> str:
         if self._brief_details_processed is not None:
             return self._brief_details_processed
-- 
2.43.0


From 1de1ae9b9cb5e224ede01d887d24e2f79b829ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 02/27] fix: raw contents of control char markers with details
 had wrong bytes and length

---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From f2d049f004fed0b538fde311411414a9e3c70ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 03/27] fix: markers details and separators at the end of
 unterminated last line were lost

---
 kolombos/byteio/segment/buffer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..080adc1 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -69,13 +69,16 @@ class SegmentBuffer:
                 has_newline = True
                 break
 
-        if avail_bytes == 0:
+        # last line can be unterminated, it should keep its zero-length segments (details, separators) as well:
+        drain = force and not has_newline and len(self._segment_chain) > 0
+
+        if avail_bytes == 0 and not drain:
             self._debug_buffer.write(1, 'Responsing with EOF')
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            detached = self._detach(avail_bytes, drain)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
@@ -107,7 +110,7 @@ class SegmentBuffer:
 
         return result
 
-    def _detach(self, req_bytes: int) -> List[Chainable]:
+    def _detach(self, req_bytes: int, drain: bool = False) -> List[Chainable]:
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
 
         if len(self._segment_chain) == 0:
@@ -119,7 +122,7 @@ class SegmentBuffer:
             cur_element = self._segment_chain[0]
 
             if isinstance(cur_element, Segment):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
 
                 if cur_element.data_len <= req_bytes:
@@ -134,7 +137,7 @@ class SegmentBuffer:
                     break
 
             elif isinstance(cur_element, StartSequenceRef):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
                 output.append(cur_element)
                 self._active_sgrs.append(cur_element.ref)
-- 
2.43.0


From a902249e5ef4ea7ccdc6f2234b6480a035cf871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 04/27] fix: binary mode hung or printed nothing with
 non-positive columns amount

---
 kolombos/byteio/formatter/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..87b74dd 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if cur_cols is None or cur_cols <= 0:  # auto
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
@@ -106,6 +106,6 @@ class BinaryFormatter(AbstractFormatter):
                     len(self.PADDING_HEX_CHUNK)
         chunk_fit = floor(available_total / chunk_len)
 
-        result = chunk_fit * self.BYTE_CHUNK_LEN
+        result = max(1, chunk_fit) * self.BYTE_CHUNK_LEN
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
         return result
-- 
2.43.0


From 72e18e3f7c91af6045f7f16e7f7d98414ca17912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 05/27] fix: offsets longer than 8 characters were truncated
 and lost their lowest digits

---
 kolombos/byteio/formatter/binary.py | 2 +-
 kolombos/console.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index 87b74dd..2e0896b 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -34,7 +34,7 @@ class BinaryFormatter(AbstractFormatter):
     def format(self):
         cur_cols = self._cols
         if cur_cols is None or cur_cols <= 0:  # auto
-            prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
+            prefix_example = Console.format_prefix_with_offset(0, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
         req_bytes = cur_cols
diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..15a0b0b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
-- 
2.43.0


From 0b60c0cf3b30a6e8f4d0f088ceeb69164d674f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 06/27] fix: valid UTF-8 sequences following binary data were
 classified as binary data

---
 kolombos/byteio/parser/parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..c2f982c 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -26,18 +26,21 @@ class Parser:
         self._segment_buffer: SegmentBuffer = segment_buffer
         self._template_registry: TemplateRegistry = template_registry
 
-        self.F_SEPARATOR = StringFilter[bytes](
-                b'('                                   # [0] UTF-8
+        utf8_seq = (
                 b'[\xc2-\xdf][\x80-\xbf]|'             # - non-overlong 2-byte
                 b'\xe0[\xa0-\xbf][\x80-\xbf]|'         # - excluding overlongs
                 b'[\xe1-\xec\xee\xef][\x80-\xbf]{2}|'  # - straight 3-byte
                 b'\xed[\x80-\x9f][\x80-\xbf]|'         # - excluding surrogates
                 b'\xf0[\x90-\xbf][\x80-\xbf]{2}|'      # - planes 1-3
-                b'[\xf1-\xf3][\x80-\xbf]{3}|'          # - planes 4-15        # # # # # # # # # # # # # # # # # # # # #
-                b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
-                b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
-                +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'[\xf1-\xf3][\x80-\xbf]{3}|'          # - planes 4-15
+                b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16
+        )
+
+        self.F_SEPARATOR = StringFilter[bytes](
+                b'(' + utf8_seq + b')|'                # [0] UTF-8            # # # # # # # # # # # # # # # # # # # # #
+                +                                                             # double slash in grp 4 is essential or #
+                b'((?:(?!' + utf8_seq + b')[\x80-\xff])+)|'  # [1] BINARY     # regex goes batshit crazy: \x5b is '[' #
+                                                                              # # # # # # # # # # # # # # # # # # # # #
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From 79de3c26e22ac308077d5ae79acb06646fbccc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 07/27] fix: sequences split by read buffer boundary were
 misclassified

---
 kolombos/byteio/parser/buffer.py |  4 ++--
 kolombos/byteio/parser/parser.py | 22 ++++++++++++++++++++--
 kolombos/runner/byteio.py        |  3 ++-
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..b1e5531 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,8 +35,8 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
-        if offset_delta == -1:
+        offset_delta = len(self._raw_buffer) - len(new_buffer)
+        if not self._raw_buffer.endswith(new_buffer):
             raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
 
         self._raw_buffer = self._raw_buffer[offset_delta:]
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index c2f982c..4167cbe 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -62,6 +62,19 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        # sequence at the end of the buffer, which can be completed by the following input:
+        self._incomplete_seq_regexp = re.compile(
+                b'(?:'
+                b'[\xc2-\xdf]|'
+                b'\xe0[\xa0-\xbf]?|'
+                b'[\xe1-\xec\xee\xef][\x80-\xbf]?|'
+                b'\xed[\x80-\x9f]?|'
+                b'\xf0(?:[\x90-\xbf][\x80-\xbf]?)?|'
+                b'[\xf1-\xf3][\x80-\xbf]{0,2}|'
+                b'\xf4(?:[\x80-\x8f][\x80-\xbf]?)?|'
+                b'\x1b(?:\\x5b[\x30-\x3f]*[\x20-\x2f]*|[\x20-\x2f]*)'
+                b')\\Z')
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -92,13 +105,18 @@ class Parser:
         self._offset = offset
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
-        unmatched = apply_filters(raw, self.F_SEPARATOR)
+        incomplete = b'' if self._parser_buffer.closed else self._find_incomplete_seq(raw)
+        unmatched = apply_filters(raw[:len(raw) - len(incomplete)], self.F_SEPARATOR)
         try:
             assert len(unmatched) == 0, f'Some bytes unprocessed: {Console.printd(unmatched)})'
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(incomplete)
+
+    def _find_incomplete_seq(self, raw: bytes) -> bytes:
+        match = self._incomplete_seq_regexp.search(raw)
+        return match.group() if match else b''
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
diff --git a/kolombos/runner/byteio.py b/kolombos/runner/byteio.py
index cf45428..6cd923a 100644
--- a/kolombos/runner/byteio.py
+++ b/kolombos/runner/byteio.py
@@ -40,8 +40,9 @@ class ByteIoRunner(AbstractRunner):
         self._formatter = FormatterFactory.create(self._parser_buffer, self._segment_buffer)
 
     def _process_chunk_buffered(self, raw_input: bytes, offset: int, finish: bool):
+        pending_len = len(self._parser_buffer.get_raw())
         self._parser_buffer.append_raw(raw_input, finish)
-        self._parser.parse(offset)
+        self._parser.parse(offset - pending_len)
         self._formatter.format()
 
         self._debug_buffer.write(1, Console.get_separator_line(main_close=finish))
-- 
2.43.0


From 4a41d93e24b2018b8de11e6b32993c8f48a3245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 08/27] fix: run time was quadratic in read buffer size even
 with debug output disabled

---
 kolombos/byteio/segment/buffer.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index 080adc1..96af8b4 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -47,17 +47,17 @@ class SegmentBuffer:
             ])
 
     def detach_bytes(self, req_bytes: int, force: bool, printers: List[SegmentPrinter, ...]) -> Tuple[str, ...]:
-        if self.data_len >= req_bytes or force:
+        if force or self._has_data(req_bytes):
             detached = self._detach(req_bytes)
             if len(detached) == 0:
                 self._debug_buffer.write(1, 'Responsing with EOF')
-                self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+                self._debug_print_state()
                 raise EOFError
 
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
         raise WaitRequest
 
     def detach_line(self, force: bool, printers: List[SegmentPrinter, ...]) -> Tuple[str, ...]:
@@ -74,7 +74,7 @@ class SegmentBuffer:
 
         if avail_bytes == 0 and not drain:
             self._debug_buffer.write(1, 'Responsing with EOF')
-            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+            self._debug_print_state()
             raise EOFError
 
         if has_newline or force:
@@ -82,9 +82,21 @@ class SegmentBuffer:
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
         raise WaitRequest
 
+    def _has_data(self, req_bytes: int) -> bool:
+        avail_bytes = 0
+        for el in self._segment_chain:
+            if avail_bytes >= req_bytes:
+                break
+            avail_bytes += el.data_len
+        return avail_bytes >= req_bytes
+
+    def _debug_print_state(self):
+        if SettingsManager.app_settings.debug >= 2:  # preview requires full scan of the buffer
+            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+
     def preview(self, max_input_len: int = 5) -> str:
         preview_data = self._preview_collect(max_input_len)
         raw_byte_len, sgr_byte_len, values, has_more = preview_data
@@ -111,7 +123,7 @@ class SegmentBuffer:
         return result
 
     def _detach(self, req_bytes: int, drain: bool = False) -> List[Chainable]:
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
 
         if len(self._segment_chain) == 0:
             return []
@@ -154,7 +166,7 @@ class SegmentBuffer:
         self._last_detached_data_len = sum([el.data_len for el in output])
 
         self._debug_buffer.write(2, 'Detached ' + Spans.BOLD(sum([el.data_len for el in output])) + ' data byte(s)')
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
         return output
 
     def _format_multiple(self, detached: List[Chainable], printers: List[SegmentPrinter, ...]) -> Tuple[str, ...]:
-- 
2.43.0


From cbc0d889b603f9f8f3542dcad61c19d3d0296c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 09/27] fix: UTF-8 encoded C1 control characters were sent to
 the terminal as is

---
 kolombos/byteio/template/template_utf8.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kolombos/byteio/template/template_utf8.py b/kolombos/byteio/template/template_utf8.py
index d5ba2fc..79447c3 100644
--- a/kolombos/byteio/template/template_utf8.py
+++ b/kolombos/byteio/template/template_utf8.py
@@ -12,6 +12,7 @@ from .. import CharClass, OpeningSeqPOV, LabelPOV
 
 class Utf8SequenceTemplate(Template):
     DECODED_LEFT_FILL_CHAR = '_'
+    DECODED_CONTROL_CHAR = '▯'  # C1 control chars (U+0080-U+009F) should not reach the terminal
 
     def __init__(self, opening_seq: SequenceSGR | OpeningSeqPOV, label: str | LabelPOV = ''):
         super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)
@@ -24,6 +25,8 @@ class Utf8SequenceTemplate(Template):
 
         if self._read_mode.is_text or self._decode:
             decoded = raw.decode('utf8', errors='replace')
+            if '\x80' <= decoded <= '\x9f':
+                decoded = self.DECODED_CONTROL_CHAR
             if self._read_mode.is_binary:
                 if len(decoded) < len(raw):
                     decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
-- 
2.43.0


From 343aff1be47e899025efbc84695c2fee1137aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 10/27] fix: Text lost falsy non-string content, e.g. zero

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d514dd0..cb66a86 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -162,7 +162,7 @@ class Text(Renderable):
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-            self._string: str = str(string) if string else ''
+            self._string: str = '' if string is None else str(string)
             if isinstance(style, str):
                 style = Style(fg=style)
             self._style: Style|None = style
-- 
2.43.0


From f5286e1b84007da07acaaa2eab04241255757890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 11/27] fix: formatting of Text instance modified its contents

---
 pytermor/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index cb66a86..43098fc 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -179,8 +179,8 @@ class Text(Renderable):
             return len(self._string)
 
         def __format__(self, *args, **kwargs) -> str:
-            self._string = self._string.__format__(*args, **kwargs)
-            return self.render()
+            formatted = self._string.__format__(*args, **kwargs)
+            return self.__class__(formatted, self._style).render()
 
 
 @dataclass
-- 
2.43.0


From 910c4d4901fd43630213c3eb1863e153e33321b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 12/27] fix: distribute_padded() modified the list passed by
 the caller

---
 pytermor/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytermor/render.py b/pytermor/render.py
index 43098fc..a82a678 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -755,6 +755,7 @@ class Styles(Registry[Style]):
 
 def distribute_padded(values: List, max_len: int, pad_before: bool = False,
                       pad_after: bool = False, ) -> str:
+    values = list(values)
     if pad_before:
         values.insert(0, '')
     if pad_after:
-- 
2.43.0


From 8593a89f424455429340cdb25225d7da74c66d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 13/27] fix: NOOP_COLOR_INDEXED raised an exception instead of
 rendering into an empty string

---
 pytermor/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytermor/color.py b/pytermor/color.py
index 1f919b8..bf87219 100644
--- a/pytermor/color.py
+++ b/pytermor/color.py
@@ -147,6 +147,8 @@ class ColorIndexed16(_ColorIndexed):
         super().__init__(hex_value)
         
     def to_sgr(self, bg: bool = False) -> SequenceSGR:
+        if self._hex_value is None:
+            return NOOP_SEQ
         if bg:
             return SequenceSGR(self._code_bg)
         return SequenceSGR(self._code_fg)
-- 
2.43.0


From ed0652f7927fefdecbcd6de328d354f80106e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 14/27] fix: format_auto_float() result had wrong length or
 detached sign for some values

---
 pytermor/util/auto_float.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..243fdac 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -63,8 +63,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         sign = '-'
         req_len -= 1
 
-    if req_len == 0:
-        return _OVERFLOW_CHAR * (len(sign))
+    if req_len <= 0:
+        return _OVERFLOW_CHAR * (len(sign) + req_len)
 
     abs_value = abs(value)
     if abs_value < 1 and req_len == 1:
@@ -74,6 +74,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     if value == 0.0:
         return f'{sign}{0:{req_len}.0f}'
 
+    total_len = len(sign) + req_len
+
     exponent = floor(log10(abs_value))
     exp_threshold_left = -2
     exp_threshold_right = req_len - 1
@@ -130,9 +132,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             significand_str = format_auto_float(significand, max_significand_len, allow_exponent_notation=False)
 
         except ValueError:
-            return f'{sign}e{exponent}'.rjust(req_len)
+            return f'{sign}e{exponent}'.rjust(total_len)
 
-        return f'{sign}{significand_str}e{exponent}'
+        return f'{sign}{significand_str.strip()}e{exponent}'.rjust(total_len)
 
     integer_len = max(1, exponent + 1)
     if integer_len == req_len:
@@ -155,4 +157,10 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    value_str = f'{abs_value:{dot_str}f}'
+    if len(value_str) > req_len:
+        # rounding can add an extra digit to the integer part,
+        # e.g. req_len = 4, abs_value = 9.999 => '10.0' instead of '10.00'
+        value_str = f'{abs_value:.{max(0, decimals_len - 1)}f}'
+
+    return f'{sign}{value_str}'.rjust(total_len)
-- 
2.43.0


From 594c8605a29f79a9181b2d838262e8260ee8c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 15/27] fix: run time was quadratic in length of a segment
 being cut into rows

---
 kolombos/byteio/segment/segment.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/kolombos/byteio/segment/segment.py b/kolombos/byteio/segment/segment.py
index b7f3fce..f8b92c4 100644
--- a/kolombos/byteio/segment/segment.py
+++ b/kolombos/byteio/segment/segment.py
@@ -15,6 +15,7 @@ class Segment(Chainable):
         self._type_label = type_label
         self._raw = raw
         self._processed = processed
+        self._start = 0  # amount of bytes and chars that have been split off already
 
     def split(self, num_bytes: int) -> Segment:
         if not self.is_consistent:
@@ -22,19 +23,20 @@ class Segment(Chainable):
                               'in binary mode, but for some reason template processing resulted in output with '
                               'different length (which is allowed for text mode only).')
 
-        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])
+        # the rest is not copied, otherwise cutting a long segment into rows would take quadratic time
+        end = self._start + num_bytes
+        left = Segment(self._opening_seq, self._type_label, self._raw[self._start:end], self._processed[self._start:end])
 
-        self._raw = self._raw[num_bytes:]
-        self._processed = self._processed[num_bytes:]
+        self._start = min(end, len(self._raw))
         return left
 
     @property
     def data_len(self) -> int:
-        return len(self._raw)
+        return len(self._raw) - self._start
 
     @property
     def is_newline(self) -> bool:
-        return '\n' in self._processed
+        return '\n' in self.processed
 
     @property
     def is_consistent(self) -> bool:
@@ -50,11 +52,11 @@ class Segment(Chainable):
 
     @property
     def raw(self) -> bytes:
-        return self._raw
+        return self._raw[self._start:] if self._start else self._raw
 
     @property
     def processed(self) -> str:
-        return self._processed
+        return self._processed[self._start:] if self._start else self._processed
 
     def __eq__(self, other: Segment):
         if not isinstance(other, Segment):
@@ -62,8 +64,8 @@ class Segment(Chainable):
 
         return self._opening_seq == other._opening_seq \
                and self._type_label == other._type_label \
-               and self._raw == other._raw \
-               and self._processed == other._processed
+               and self.raw == other.raw \
+               and self.processed == other.processed
 
     def __repr__(self):
-        return f'{self.__class__.__name__}[{self._raw.hex(" ")}]->[{self._processed}]'
+        return f'{self.__class__.__name__}[{self.raw.hex(" ")}]->[{self.processed}]'
-- 
2.43.0


From c088c4020c7ba827ac09f2005d720e9c4b560e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 16/27] fix: raw params of escape sequences were lost from
 debug output at marker level 0

---
 kolombos/byteio/template/template_escape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_escape.py b/kolombos/byteio/template/template_escape.py
index 0c86af0..2bb36b4 100644
--- a/kolombos/byteio/template/template_escape.py
+++ b/kolombos/byteio/template/template_escape.py
@@ -29,9 +29,11 @@ class EscapeSequenceTemplate(Template):
         label_raw = raw[:1]   # label of escape sequence is always 1-byte
         params_raw = raw[1:]  # @TODO replace space in CSI params to placeholder
 
+        # params without details segment of their own belong to the primary one
+        has_details = self._marker_details is not MarkerDetailsEnum.NO_DETAILS
         primary_seg = self._create_primary_segment(
             self._get_label_opening_seq(),
-            label_raw,
+            label_raw if has_details else raw,
             self._process(label_raw)
         )
         self._substituted.insert(0, primary_seg)
-- 
2.43.0


From 36874077434ed4e2e337284f3b82f40de690f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 17/27] fix: help that could not be printed was reported as a
 success

---
 kolombos/arghelp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index e9984fe..f674f1d 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -3,6 +3,7 @@
 # (C) 2022 A. Shavykin <0.delameter@gmail.com>
 # -----------------------------------------------------------------------------
 import re
+import sys
 import textwrap
 from argparse import HelpFormatter, Action, ArgumentParser, SUPPRESS
 from typing import Optional, Iterable, List
@@ -79,6 +80,10 @@ class CustomArgumentParser(ArgumentParser):
         })
         super(CustomArgumentParser, self).__init__(**kwargs)
 
+    def print_help(self, file=None):
+        # superclass suppresses output errors, i.e. help that could not be printed would be reported as a success
+        (file or sys.stdout).write(self.format_help())
+
     def format_help(self) -> str:
         formatter = self._get_formatter()
         if self.epilog:
-- 
2.43.0


From 6acade7223a51af359376a7ff5554ed827fca324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 18/27] fix: Span.init_explicit() discarded given sequences

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..84a1d20 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 9f9b9f9dd059e3398e01227a857e434a9259bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:11 +0000
Subject: [PATCH 19/27] fix: format_auto_float() misjudged numbers next to
 powers of ten ('0e3' for 999.99...)

---
 pytermor/util/auto_float.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 243fdac..a4764ff 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -77,6 +77,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     total_len = len(sign) + req_len
 
     exponent = floor(log10(abs_value))
+    if abs_value < float(f'1e{exponent}'):
+        # logarithms of numbers just below the powers of ten are rounded up
+        exponent -= 1
     exp_threshold_left = -2
     exp_threshold_right = req_len - 1
 
@@ -123,7 +126,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             # there is no place even for exponent
             return _OVERFLOW_CHAR * (len(sign) + req_len)
 
-        significand = abs_value/pow(10, exponent)
+        # division can be rounded up to 10, too
+        significand = min(abs_value/pow(10, exponent), 9.999999999999998)
         max_significand_len = req_len - exponent_len
         try:
             # max_significand_len can be 0, in that case significand_str will be empty; that
@@ -147,7 +151,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             #      => should be displayed as 9, not 10
             integer_str = f'{trunc(abs_value):{req_len}d}'
 
-        return f'{sign}{integer_str}'
+        return f'{sign}{integer_str.strip()}'.rjust(total_len)
 
     decimals_with_point_len = req_len - integer_len
     decimals_len = decimals_with_point_len - 1
-- 
2.43.0


From 231721277e8136399bbe8358c75aee278e569102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 20/27] fix: unit override was lost for values beyond the
 largest or smallest prefix

---
 pytermor/util/prefixed_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 553e688..2512e5e 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -140,7 +140,7 @@ class PrefixedUnitFormatter:
         num_str = format_auto_float(value,
                                     self._max_value_len,
                                     allow_exponent_notation=False)
-        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + self._unit
+        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + (unit or self._unit)
         return f'{num_str.strip()}{self._unit_separator}{unit_full.strip()}'
 
 
-- 
2.43.0


From 9e8b9b7d4f0a168f0b15d6010eea09ce835feb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:50 +0000
Subject: [PATCH 21/27] fix: reading from a named pipe given as a file failed
 with 'Illegal seek'

---
 kolombos/byteio/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d6367cf..1d2ad6c 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -42,7 +42,7 @@ class Reader(metaclass=abc.ABCMeta):
         try:
             while raw_input := self._io.read(self._chunk_size):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
-                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin else "n/a")}', offset=self._offset)
+                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
                 if max_lines:
                     for line_break in re.finditer(b'\x0a', raw_input):
-- 
2.43.0


From df275893caf003cc8e1b1080a144c4bffbd73652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 22/27] fix: an invalid escape sequence in a docstring made
 first runs warn on standard error

---
 pytermor/util/auto_float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index a4764ff..3391cc7 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -15,7 +15,7 @@ _OVERFLOW_CHAR = '!'
 
 
 def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool = True) -> str:
-    """
+    r"""
     Dynamically adjust decimal digit amount and format
     to fill up the output string with as many significant
     digits as possible, and keep the output length
-- 
2.43.0


From 1abf2ba69a71b8abf2fb2b56d9c84d6cf980f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 23/27] fix: negative byte and line limits cut the input at an
 arbitrary place

---
 kolombos/byteio/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index 1d2ad6c..026ccf7 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -44,7 +44,7 @@ class Reader(metaclass=abc.ABCMeta):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
                 self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
-                if max_lines:
+                if max_lines and max_lines > 0:
                     for line_break in re.finditer(b'\x0a', raw_input):
                         lines += 1
                         if lines >= max_lines:
@@ -53,7 +53,7 @@ class Reader(metaclass=abc.ABCMeta):
                             self._debug_buffer.write(3, f'Cropping input -> {Console.printd(raw_input)}', offset=self._offset)
                             break
 
-                if max_bytes and self._offset + len(raw_input) > max_bytes:
+                if max_bytes and 0 < max_bytes < self._offset + len(raw_input):
                     raw_input = raw_input[:max_bytes - self._offset]
                     self._debug_buffer.write(2, 'Byte limit exceeded: ' + Spans.BOLD(max_bytes), offset=self._offset)
                     self._debug_buffer.write(3, f'Cropping input -> {Console.printd(raw_input)}', offset=self._offset)
@@ -63,8 +63,8 @@ class Reader(metaclass=abc.ABCMeta):
                 self._offset += len(raw_input)
                 raw_input = b''
 
-                if (max_bytes and self._offset >= max_bytes) or \
-                   (max_lines and lines >= max_lines):
+                if (max_bytes and 0 < max_bytes <= self._offset) or \
+                   (max_lines and 0 < max_lines <= lines):
                     break
 
             self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)
-- 
2.43.0


From 67742ab5bb42d773e10fe38751ed0cfda100fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:39 +0000
Subject: [PATCH 24/27] fix: legend shows the version of a previous release

---
 kolombos/legend.ansi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/legend.ansi b/kolombos/legend.ansi
index b75a654..f2e5b2a 100644
--- a/kolombos/legend.ansi
+++ b/kolombos/legend.ansi
@@ -3,7 +3,7 @@
 [1;32m  / //_/[36m __ \/ / __ \[35m/ __ '__ \/ __ \/ __ \[33m/ ___/[m
 [1;94m / ,< [36m/ /_/ / / /_/ [35m/ / / / / / /_/ / /_/ [33m(__  )[m
 [1;34m/_/|_|[34m\____/_/\____/_/ /_/ /_/\.___/\____[33m/____/[m
-                                            [93mv1.5.3[m
+                                            [93mv1.5.4[m
 
 [97;1mCHARACTER CLASSES[m
   [90m<[m[1mS[m[90m>[m   ASCII whitespace chars   09-0d, 20      [90;1m-s -S[m
-- 
2.43.0


From 8c1f8b79695bfeea9f6076da465cfab9ed2e5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:02 +0000
Subject: [PATCH 25/27] fix: keep the colon of a default that is wrapped in the
 help

---
 kolombos/arghelp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index f674f1d..d630f89 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -97,7 +97,7 @@ class CustomArgumentParser(ArgumentParser):
 
         result = super().format_help() + ending_formatted
         # remove ':' from headers ('<_b>header:<_f>'):
-        result = re.sub(r'(\033\[[0-9;]*m)?\s*:\s*(\n|\033|$)', r'\1\2', result)
+        result = re.sub(r'(\033\[[0-9;]*m)\s*:\s*(\n|\033|$)', r'\1\2', result)
         return result
 
 
-- 
2.43.0


From 2a4480748efa6ce4a70ff323fc4bfe574ddfbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:03 +0000
Subject: [PATCH 26/27] fix: generated legend loses its styles when the
 generator's output is not a terminal

---
 dev/generate_legend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dev/generate_legend.py b/dev/generate_legend.py
index 47d6829..17cc251 100644
--- a/dev/generate_legend.py
+++ b/dev/generate_legend.py
@@ -31,6 +31,8 @@ project_dir = abspath(join(dirname(__file__), ".."))
 TPL_PATH = join(project_dir, "dev", "legend.tpl.ansi")
 OUTPUT_PATH = join(project_dir, "kolombos", "legend.ansi")
 
+SgrRenderer.set_up(force_styles=True)  # the output is a file, whatever stdout is
+
 SettingsManager.init()
 app_settings = SettingsManager.app_settings
 reg = TemplateRegistry()
-- 
2.43.0


From eb3ecf9a7695795b1ea09442779b299eb88466e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:23 +0000
Subject: [PATCH 27/27] fix: prefixed unit formatter without prefixes (the
 default) always raises ValueError

---
 pytermor/util/prefixed_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 2512e5e..71d6cec 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -90,7 +90,7 @@ class PrefixedUnitFormatter:
         self._unit: str = unit or ''
         self._unit_separator: str = unit_separator or ''
         self._mcoef: float = mcoef
-        self._prefixes: List[str | None] = prefixes or []
+        self._prefixes: List[str | None] = prefixes or [None]
         self._prefix_zero_idx: int = prefix_zero_idx or 0
 
     @property
@@ -102,7 +102,7 @@ class PrefixedUnitFormatter:
         result = self._max_value_len
         result += len(self._unit_separator)
         result += len(self._unit)
-        result += max([len(p) for p in self._prefixes if p])
+        result += max([len(p) for p in self._prefixes if p], default=1)
         return result
 
     def format(self, value: float, unit: str = None) -> str:
@@ -140,7 +140,7 @@ class PrefixedUnitFormatter:
         num_str = format_auto_float(value,
                                     self._max_value_len,
                                     allow_exponent_notation=False)
-        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + (unit or self._unit)
+        unit_full = ('?' * max([len(p) for p in self._prefixes if p], default=1)) + (unit or self._unit)
         return f'{num_str.strip()}{self._unit_separator}{unit_full.strip()}'
 
 
-- 
2.43.0

