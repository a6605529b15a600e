From 5cc3aaa874e6a0190d8362adb5fa78ccc8595c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 01/37] fix: out of bounds write for partial items in packed
 fixed size fields

The first pass counted whole items only, while the second pass also
stored the trailing partial item before detecting the end of data.
---
 lib/src/pbtools.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..e4ff0ec 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1300,7 +1300,8 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
-        self_p->length += (size / 4);
+        /* Room for a trailing partial item as well. */
+        self_p->length += ((size / 4) + ((size % 4) != 0));
         decoder_seek(decoder_p, size);
         break;
 
@@ -1328,7 +1329,8 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
-        self_p->length += (size / 8);
+        /* Room for a trailing partial item as well. */
+        self_p->length += ((size / 8) + ((size % 8) != 0));
         decoder_seek(decoder_p, size);
         break;
 
-- 
2.43.0


From 878b0f447ae02f9ddfee40f0e8c9cdf3163aa9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 02/37] fix: compare allocation sizes as size_t

Sizes that do not fit in an int became negative and looked small
enough, which moved the workspace position backwards.
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index e4ff0ec..ded1a50 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -77,13 +77,13 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
                         size_t alignment)
 {
     uintptr_t addr;
-    int left;
+    size_t left;
     size_t rest;
     size_t pad;
 
-    left = (self_p->size - self_p->pos);
+    left = (size_t)(self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if (size <= left) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From cb0c3b5a51070c22390edbcebb79ec3a49fd901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 03/37] fix: report out of memory for repeated messages when
 decoding

The items were silently dropped and the decoding succeeded.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index ded1a50..d5e2e5d 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2482,6 +2482,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From 51a8836009006f0e09fd77d710772afdbe8b1507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 04/37] fix: allow encoding into a buffer of exactly the
 encoded size

One more byte than the encoded size was required, and an empty message
could not be encoded into a zero size buffer (-1, bad wire type, was
returned).
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index d5e2e5d..ff1012e 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -113,7 +113,7 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
 {
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
-    self_p->pos = ((int)size - 1);
+    self_p->pos = (int)size;
 }
 
 static int encoder_get_result(struct pbtools_encoder_t *self_p)
@@ -121,9 +121,9 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
     int length;
 
     if (self_p->pos >= 0) {
-        length = (self_p->size - self_p->pos - 1);
+        length = (self_p->size - self_p->pos);
         memmove(self_p->buf_p,
-                &self_p->buf_p[self_p->pos + 1],
+                &self_p->buf_p[self_p->pos],
                 (size_t)length);
     } else {
         length = self_p->pos;
@@ -147,7 +147,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
 {
     if (self_p->pos >= size) {
         self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
-- 
2.43.0


From d82d0e1d927d20cb822bcb8332ccf212637b5ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 05/37] fix: align the heap in unaligned workspaces

The heap book keeping was accessed misaligned when the workspace was
not suitably aligned.
---
 lib/src/pbtools.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index ff1012e..12f26e7 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -59,10 +59,20 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
                                        size_t size)
 {
     struct pbtools_heap_t *heap_p;
+    uintptr_t addr;
+    size_t pad;
 
-    if (size >= sizeof(*heap_p)) {
-        heap_p = (struct pbtools_heap_t *)buf_p;
-        heap_p->buf_p = buf_p;
+    /* The heap itself must be aligned as well. */
+    addr = (uintptr_t)buf_p;
+    pad = ((alignof(struct pbtools_heap_t)
+            - (addr & (alignof(struct pbtools_heap_t) - 1)))
+           & (alignof(struct pbtools_heap_t) - 1));
+
+    if ((size >= pad) && ((size - pad) >= sizeof(*heap_p))) {
+        addr += pad;
+        size -= pad;
+        heap_p = (struct pbtools_heap_t *)addr;
+        heap_p->buf_p = (char *)addr;
         heap_p->size = (int)size;
         heap_p->pos = sizeof(*heap_p);
     } else {
-- 
2.43.0


From 90389286b64132df447916bf61920267a60b6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 06/37] fix: decode bool as true if any bit is set

Only the lower 32 bits of the varint were looked at.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 12f26e7..5cd4079 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1210,7 +1210,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (pbtools_decoder_read_uint64(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From d91af5610beaf0de91cbfc4bab569eaac8e177cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 07/37] fix: truncate varints to 32 bits before zigzag decoding
 of sint32

---
 lib/src/pbtools.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 5cd4079..2900931 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -232,8 +232,13 @@ static uint32_t sint32_encode(int32_t value)
     return (data);
 }
 
-static int32_t sint32_decode(uint64_t value)
+static int32_t sint32_decode(uint64_t varint)
 {
+    uint32_t value;
+
+    /* Truncate before decoding, as required for too wide varints. */
+    value = (uint32_t)varint;
+
     if (value & 0x1) {
         value >>= 1;
         value = ~value;
@@ -1089,7 +1094,8 @@ int64_t pbtools_decoder_read_int64(struct pbtools_decoder_t *self_p,
 int32_t pbtools_decoder_read_sint32(struct pbtools_decoder_t *self_p,
                                     int wire_type)
 {
-    return ((int32_t)pbtools_decoder_read_sint64(self_p, wire_type));
+    return (sint32_decode(read_varint_check_wire_type_varint(self_p,
+                                                             wire_type)));
 }
 
 int64_t pbtools_decoder_read_sint64(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From 008611f9a099d7ffa519a6ae7b3dc65c9cdecf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 08/37] fix: do not copy from an invalid pointer when encoding
 empty bytes

The buffer pointer of an empty bytes field was not initialized, and
NULL (with size zero) is passed to memcpy() for allocated bytes lists.
---
 lib/src/pbtools.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 2900931..e24884d 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -156,8 +156,11 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
                           int size)
 {
     if (self_p->pos >= size) {
-        self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
+        /* The buffer may be invalid if the size is zero. */
+        if (size > 0) {
+            self_p->pos -= size;
+            memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
+        }
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
@@ -2321,6 +2324,7 @@ void pbtools_decoder_skip_field(struct pbtools_decoder_t *self_p,
 
 void pbtools_bytes_init(struct pbtools_bytes_t *self_p)
 {
+    self_p->buf_p = (uint8_t *)"";
     self_p->size = 0;
 }
 
-- 
2.43.0


From b52233a5e5824d6cdb17ffb219248585060ef308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 09/37] fix: signed overflow for the smallest error code

---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index e24884d..7e5bcde 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2616,7 +2616,7 @@ const char *pbtools_error_code_to_string(int code)
 {
     const char *string_p;
 
-    if (code < 0) {
+    if ((code < 0) && (code >= -INT_MAX)) {
         code *= -1;
     }
 
-- 
2.43.0


From bae29a405425ddea0f0fa92ad1d0c5ca1f9cac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 10/37] fix: do not treat text in string literals as comments

Also keep line breaks in comments, so that line numbers in error
messages are correct.
---
 pbtools/parser.py | 62 ++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..6b08736 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -63,53 +63,23 @@ def ignore_comments(string):
 
     """
 
-    comments = [
-        (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
-    ]
+    def blank(mo):
+        text = mo.group(0)
+
+        if text.startswith('"'):
+            return text
+
+        if text.startswith('/*'):
+            if '/*' in text[2:] or text[-2:] != '*/' or len(text) < 4:
+                raise Error(format_parse_error(string, mo.start()))
+
+        # Keep line numbers in error messages.
+        return re.sub(r'[^\n]', ' ', text)
 
-    comments.sort()
-
-    in_single_line_comment = False
-    in_multi_line_comment = False
-    start_offset = 0
-    non_comment_offset = 0
-    chunks = []
-
-    for offset, kind in comments:
-        if in_single_line_comment:
-            if kind == '\n':
-                in_single_line_comment = False
-                chunks.append(' ' * (offset - start_offset))
-                non_comment_offset = offset
-        elif in_multi_line_comment:
-            if kind == '/*':
-                raise Error(format_parse_error(string, start_offset))
-            elif kind == '*/':
-                in_multi_line_comment = False
-                offset += 2
-                chunks.append(' ' * (offset - start_offset))
-                non_comment_offset = offset
-        elif kind == '//':
-            in_single_line_comment = True
-            start_offset = offset
-            chunks.append(string[non_comment_offset:start_offset])
-        elif kind == '/*':
-            in_multi_line_comment = True
-            start_offset = offset
-            chunks.append(string[non_comment_offset:start_offset])
-
-    if in_single_line_comment:
-        offset = len(string)
-        chunks.append(' ' * (offset - start_offset))
-        non_comment_offset = offset
-
-    if in_multi_line_comment:
-        raise Error(format_parse_error(string, start_offset))
-
-    chunks.append(string[non_comment_offset:])
-
-    return ''.join(chunks)
+    return re.sub(r'"(?:\\.|[^"\\\n])*"|//[^\n]*|/\*(?:.*?\*/|.*)',
+                  blank,
+                  string,
+                  flags=re.DOTALL)
 
 
 class Parser(textparser.Parser):
-- 
2.43.0


From 97d6e17a62da66dd57aaaa10c0e8d47ea5ae52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 11/37] fix: string literals ending with an escaped backslash

Neither may they contain line breaks.
---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 6b08736..911a84b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -114,7 +114,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        r'"(\\.|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From 0601dabb57ed844bb201db0898a9fbddab2c0dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 12/37] fix: import and reserved statements must end with a
 semicolon

---
 pbtools/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 911a84b..79efa82 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -153,7 +153,8 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING')
+                           'STRING',
+                           ';')
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -185,8 +186,10 @@ class Parser(textparser.Parser):
         field_number_range = Sequence('INT',
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
-        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
+        reserved = Sequence('reserved',
+                            choice(DelimitedList(field_number_range),
+                                   DelimitedList('STRING')),
+                            ';')
 
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
-- 
2.43.0


From ab9a130db3f4a7360e0fbd5b858a27a46621c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 13/37] fix: allow empty statements in enums and oneofs

---
 pbtools/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 79efa82..4569897 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -305,7 +305,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -336,7 +337,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
-- 
2.43.0


From 276dfe58a824369fdd6d9a8215f822e59305a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 14/37] fix: support hexadecimal and octal numbers

---
 pbtools/parser.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 4569897..c9f02b5 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -290,7 +290,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_integer(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -326,7 +326,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_integer(tokens[3]))
 
 
 class Oneof:
@@ -371,7 +371,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_integer(tokens[4]),
                    repeated,
                    optional)
 
@@ -412,7 +412,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
@@ -738,6 +738,20 @@ def load_message_type(tokens):
     return tokens[1]
 
 
+def load_integer(value):
+    """Returns the value of given decimal, hexadecimal or octal integer.
+
+    """
+
+    try:
+        if re.match(r'-?0[0-9]', value):
+            return int(value, 8)
+        else:
+            return int(value, 0)
+    except ValueError:
+        raise Error(f"'{value}' is not an integer.")
+
+
 def load_package(tokens):
     try:
         return '.'.join(tokens[1]['package'][0][1])
-- 
2.43.0


From b2d1874baed875236e16876ccf0f2155d0d0dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 15/37] fix: parse full values of integer and dotted identifier
 options

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index c9f02b5..d2301c4 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -278,9 +278,9 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_integer(value)
 
         self.kind = kind
         self.value = value
-- 
2.43.0


From 4399271a2eac63079d551414c9b690ed09bfe6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 16/37] fix: allow options in services

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index d2301c4..67f70fc 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -486,7 +486,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From eeae6d8799c08e55787feb952d3ccc4701342a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 17/37] fix: keep package in rpc request and response types

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 67f70fc..603b463 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -469,9 +469,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = '.'.join(tokens[4][1])
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = '.'.join(tokens[9][1])
         self.response_stream = bool(tokens[8])
 
 
-- 
2.43.0


From 1ec43f743686d6166770ce27acf5a8da7f51f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 18/37] fix: ignore options in messages, enums and oneofs

Options are ignored according to the documentation, but were syntax
errors.
---
 pbtools/parser.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 603b463..7096865 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -167,15 +167,19 @@ class Parser(textparser.Parser):
         enum = Sequence('enum',
                         ident,
                         '{',
-                        ZeroOrMore(choice(enum_field, empty_statement)),
+                        ZeroOrMore(choice(Tag('field', enum_field),
+                                          option,
+                                          empty_statement)),
                         '}')
 
         # Oneof.
-        oneof_field = Sequence(message_type, ident, '=', 'INT', ';')
+        oneof_field = Sequence(message_type, ident, '=', 'INT', options, ';')
         oneof = Sequence('oneof',
                          ident,
                          '{',
-                         ZeroOrMore(choice(oneof_field, empty_statement)),
+                         ZeroOrMore(choice(option,
+                                           Tag('field', oneof_field),
+                                           empty_statement)),
                          '}')
 
         # Map.
@@ -198,7 +202,8 @@ class Parser(textparser.Parser):
         message <<= Sequence('message',
                              ident,
                              '{',
-                             ZeroOrMore(choice(Tag('field', field),
+                             ZeroOrMore(choice(option,
+                                               Tag('field', field),
                                                enum,
                                                message,
                                                oneof,
@@ -305,8 +310,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(EnumField(item))
+            if item[0] == 'field':
+                self.fields.append(EnumField(item[1]))
 
     @property
     def namespace_snake_case(self):
@@ -337,8 +342,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(OneofField(item))
+            if item[0] == 'field':
+                self.fields.append(OneofField(item[1]))
 
     @property
     def full_name(self):
@@ -403,7 +408,7 @@ class Message:
                 self.oneofs.append(Oneof(item, sub_namespace))
             elif kind == 'map':
                 self._load_map(item, sub_namespace)
-            elif kind in ['reserved', ';']:
+            elif kind in ['option', 'reserved', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 0269c6da5dc4ae92b69a8ef6f3138e9542abcb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 19/37] fix: keep package and scope of map value types

---
 pbtools/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 7096865..de600e6 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -415,7 +415,6 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
-        value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
         field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -423,7 +422,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], tokens[4], 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
-- 
2.43.0


From bd7295227c2728e46d97cc6a079b6d59ef76f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 20/37] fix: include generated header of imports in
 sub-directories

All generated files are written to the output directory, without the
directory of the proto-file in their names.
---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..8427256 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1295,7 +1295,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0


From d8868810500ee993b22f61062c1c76bbd99a4625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 21/37] fix: resolve types according to the scoping rules of
 protobuf

Undefined types were accepted, enums were treated as messages, and
references to nested types were rejected, depending on how the type was
referenced and in which file and package it was defined.
---
 pbtools/parser.py | 184 +++++++++++++++++++++-------------------------
 1 file changed, 84 insertions(+), 100 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index de600e6..2cd1fa2 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -496,6 +496,14 @@ class Service:
                 raise InternalError(kind)
 
 
+class Type:
+
+    def __init__(self, kind, package, namespace):
+        self.kind = kind
+        self.package = package
+        self.namespace = namespace
+
+
 class ImportedProto:
 
     def __init__(self, tokens, import_paths):
@@ -515,6 +523,10 @@ class ImportedProto:
             tokens[1]
             for tokens in tree[1].get('message', [])
         ]
+        namespace = load_namespace(self.package)
+        self.types = load_types(load_messages(tree, namespace),
+                                load_enums(tree, namespace),
+                                self.package)
 
     @property
     def type_names(self):
@@ -536,9 +548,8 @@ class Proto:
         self._messages = load_messages(tree, namespace)
         self._services = load_services(tree)
         self._enums = load_enums(tree, namespace)
-        self.messages_stack = []
-        self.resolve_messages_fields_types()
-        self.resolve_messages_fields_type_kinds()
+        self._types = self.load_types()
+        self.resolve_messages_fields_types(self._messages)
         self._messages = self.sort_messages_by_usage(self._messages)
 
     @property
@@ -597,126 +608,78 @@ class Proto:
         return type_names
 
     def namespace_base(self):
-        if self._package is None:
-            return []
-        else:
-            return [self._package]
-
-    def resolve_messages_fields_types(self):
-        for message in self._messages:
-            self.resolve_message_fields_types(message)
+        return load_namespace(self._package)
 
-    def resolve_message_fields_types(self, message):
-        self.messages_stack.append(message)
+    def load_types(self):
+        """Returns all types that can be used in this file.
 
-        for field in message.fields:
-            if field.type in SCALAR_VALUE_TYPES:
-                continue
+        """
 
-            self.resolve_field_type(field)
+        types = {}
 
-        for sub_message in message.messages:
-            self.resolve_message_fields_types(sub_message)
+        for imported in self._imports:
+            types.update(imported.types)
 
-        for oneof in message.oneofs:
-            for field in oneof.fields:
-                if field.type in SCALAR_VALUE_TYPES:
-                    continue
+        types.update(load_types(self._messages, self._enums, self._package))
 
-                self.resolve_field_type(field)
+        return types
 
-        self.messages_stack.pop()
+    def resolve_messages_fields_types(self, messages):
+        for message in messages:
+            for field in message.fields:
+                self.resolve_field_type(field, message)
 
-    def resolve_field_type(self, field):
-        if field.namespace:
-            return
+            for oneof in message.oneofs:
+                for field in oneof.fields:
+                    self.resolve_field_type(field, message)
 
-        for message in reversed(self.messages_stack):
-            if field.type in message.type_names:
-                namespace = message.namespace + [message.name]
-                package = self._package
-                break
-        else:
-            if field.type in self.type_names:
-                namespace = self.namespace_base()
-                package = self._package
-            else:
-                for imported in self._imports:
-                    if imported.package == self._package:
-                        if field.type in imported.type_names:
-                            namespace = self.namespace_base()
-                            package = self._package
-                            break
-                else:
-                    namespace = []
-                    package = None
+            self.resolve_messages_fields_types(message.messages)
 
-        field.namespace = namespace
-        field.package = package
+    def resolve_field_type(self, field, message):
+        if field.full_type in SCALAR_VALUE_TYPES:
+            field.type_kind = 'scalar-value-type'
 
-    def resolve_messages_fields_type_kinds(self):
-        for message in self._messages:
-            self.resolve_message_fields_type_kinds(message)
+            return
 
-    def resolve_message_fields_type_kinds(self, message):
-        self.messages_stack.append(message)
+        for name in self.type_name_candidates(field, message):
+            if name in self._types:
+                type = self._types[name]
+                field.namespace = type.namespace
+                field.package = type.package
+                field.type_kind = type.kind
 
-        for field in message.fields:
-            self.resolve_field_type_kind(field)
+                return
 
-        for sub_message in message.messages:
-            self.resolve_message_fields_type_kinds(sub_message)
+        raise Error(f"'{field.type}' is not defined.")
 
-        for oneof in message.oneofs:
-            for field in oneof.fields:
-                self.resolve_field_type_kind(field)
+    def type_name_candidates(self, field, message):
+        """All fully qualified names given field's type may refer to, in order
+        of precedence.
 
-        self.messages_stack.pop()
+        """
 
-    def resolve_field_type_kind(self, field):
-        if field.type in SCALAR_VALUE_TYPES:
-            field.type_kind = 'scalar-value-type'
-        elif self.is_field_enum(field):
-            field.type_kind = 'enum'
-        else:
-            field.type_kind = 'message'
+        name = field.full_type
 
-    def is_field_enum(self, field):
-        for imported in self._imports:
-            if field.package == imported.package:
-                if field.type in imported.enums:
-                    return True
-                elif field.type in imported.messages:
-                    return False
+        # Fully qualified with a leading dot.
+        if name.startswith('.'):
+            return [name[1:]]
 
-        if field.package == self._package:
-            offset = len(self.namespace_base())
-            type = self.lookup_type(field.namespace[offset:] + [field.type],
-                                    self._enums,
-                                    self._messages)
+        candidates = []
 
-            return isinstance(type, Enum)
+        # Package and name.
+        if name in self._types and self._types[name].package == field.package:
+            candidates.append(name)
 
-        raise Error(f"'{field.type}' is not defined.")
+        # From innermost to outermost scope.
+        scope = message.full_name.split('.')
 
-    def lookup_type(self, path, enums, messages):
-        name = path[0]
-        rest = path[1:]
+        while scope:
+            candidates.append('.'.join(scope + [name]))
+            scope.pop()
 
-        if rest:
-            for message in messages:
-                if message.name == name:
-                    return self.lookup_type(rest,
-                                            message.enums,
-                                            message.messages)
-        else:
-            for enum in enums:
-                if enum.name == name:
-                    return enum
+        candidates.append(name)
 
-            for message in messages:
-                if message.name == name:
-                    return message
+        return candidates
 
     def sort_messages_by_usage(self, messages):
         reversed_sorted_messages = []
@@ -739,7 +702,28 @@ class Proto:
 
 
 def load_message_type(tokens):
-    return tokens[1]
+    # An empty first name if fully qualified with a leading dot.
+    return len(tokens[0]) * [''] + tokens[1]
+
+
+def load_namespace(package):
+    if package is None:
+        return []
+    else:
+        return [package]
+
+
+def load_types(messages, enums, package):
+    types = {}
+
+    for enum in enums:
+        types[enum.full_name] = Type('enum', package, enum.namespace)
+
+    for message in messages:
+        types[message.full_name] = Type('message', package, message.namespace)
+        types.update(load_types(message.messages, message.enums, package))
+
+    return types
 
 
 def load_integer(value):
-- 
2.43.0


From b5b87f15a4f7f31376f3c0b20dc4d7172ad26ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 22/37] fix: generate types before they are used

A message with a repeated field or enum of a type generated later in
the header did not compile, for example mutually recursive messages.
---
 pbtools/c_source/__init__.py | 53 ++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 8427256..7caf489 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -698,6 +698,17 @@ class Generator:
         self.parsed = parsed
         self.header_name = header_name
         self.enums_upper_case = options.enums_upper_case
+        self.types = {}
+        self.load_types(parsed.enums, parsed.messages)
+        self.generated_types = set()
+
+    def load_types(self, enums, messages):
+        for enum in enums:
+            self.types[enum.full_name] = enum
+
+        for message in messages:
+            self.types[message.full_name] = message
+            self.load_types(message.enums, message.messages)
 
     @property
     def messages(self):
@@ -816,8 +827,44 @@ class Generator:
         return members
 
     def generate_repeated_struct(self, message):
+        if message.full_name in self.generated_types:
+            return ''
+
+        self.generated_types.add(message.full_name)
+
         return REPEATED_MESSAGE_STRUCT_FMT.format(message=message)
 
+    def generate_used_types(self, message):
+        """Types used by value by given message must be generated before the
+        message itself, also if they are defined later in the file.
+
+        """
+
+        types = []
+        fields = list(message.fields)
+
+        for oneof in message.oneofs:
+            fields += oneof.fields
+
+        for field in fields:
+            type = self.types.get(field.full_type)
+
+            if type is None or type is message:
+                continue
+
+            repeated = getattr(field, 'repeated', False)
+
+            if field.type_kind == 'enum':
+                if not repeated:
+                    types += self.generate_enum_type(type)
+            elif repeated:
+                repeated_struct = self.generate_repeated_struct(type)
+
+                if repeated_struct:
+                    types.append(repeated_struct + '\n')
+
+        return types
+
     def generate_enum_members(self, enum):
         lines = []
 
@@ -832,6 +879,11 @@ class Generator:
         return ',\n'.join(lines)
 
     def generate_enum_type(self, enum):
+        if enum.full_name in self.generated_types:
+            return []
+
+        self.generated_types.add(enum.full_name)
+
         return [
             ENUM_FMT.format(full_name=enum.full_name,
                             name=enum.full_name_snake_case,
@@ -880,6 +932,7 @@ class Generator:
         for oneof in message.oneofs:
             types += self.generate_oneof_type(oneof)
 
+        types += self.generate_used_types(message)
         types += [
             MESSAGE_STRUCT_FMT.format(
                 message=message,
-- 
2.43.0


From 745dbf7a4669fb11069e7020c26e03a0c22ce49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 23/37] fix: allow empty statements in rpcs

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 2cd1fa2..117169e 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -220,7 +220,8 @@ class Parser(textparser.Parser):
                        'returns',
                        '(', Optional('stream'), message_type, ')',
                        choice(Sequence('{',
-                                       ZeroOrMore(option),
+                                       ZeroOrMore(choice(option,
+                                                         empty_statement)),
                                        '}'),
                               ';'))
         service = Sequence('service',
-- 
2.43.0


From c24e15dfa478ea5233a452a54041b5ab0f1ea14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 24/37] fix: reject identifiers with non-ASCII characters

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 117169e..ece8a22 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -111,7 +111,7 @@ class Parser(textparser.Parser):
     def token_specs(self):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
-            ('IDENT',         r'[a-zA-Z]\w*'),
+            ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
             ('STRING',        r'"(\\.|[^"\\\n])*"'),
-- 
2.43.0


From 6a9f12bae16e58c153d250e67d47996a893f36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 25/37] fix: reject malformed numbers

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index ece8a22..a0859d9 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -112,7 +112,7 @@ class Parser(textparser.Parser):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
-            ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
+            ('INT',           r'-?(0[xX][a-fA-F0-9]+|0[0-7]*|[1-9][0-9]*)(?!\w)'),
             ('PROTO3',        r'"proto3"'),
             ('STRING',        r'"(\\.|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
-- 
2.43.0


From 7122de14adb932d137a468b05fad6316aa7da8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 26/37] fix: reject files that end in the middle of a statement

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a0859d9..876c29e 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -238,7 +238,8 @@ class Parser(textparser.Parser):
                                                package,
                                                option,
                                                top_level_def,
-                                               empty_statement)))
+                                               empty_statement)),
+                         '__EOF__')
 
         return proto
 
-- 
2.43.0


From 9fff97bffbf2134dc6ba73a3cf87ca7d4a6424b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 27/37] fix: messages and enums named as scalar value types

---
 pbtools/c_source/__init__.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 7caf489..2146c1d 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1,6 +1,5 @@
 import os
 
-from ..parser import SCALAR_VALUE_TYPES
 from ..parser import camel_to_snake_case
 from ..parser import parse_file
 
@@ -719,7 +718,14 @@ class Generator:
         return self.parsed.package
 
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        # Messages and enums first, as they may be named as scalar
+        # value types.
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            type = f'struct {type}_t *'
+            name_snake_case = f'{name_snake_case}_p'
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -734,11 +740,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             name_snake_case = f'{name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
-        elif type_kind == 'message':
-            type = f'struct {type}_t *'
-            name_snake_case = f'{name_snake_case}_p'
         else:
             type += ' '
 
@@ -747,7 +748,11 @@ class Generator:
     def generate_optional_struct_member_fmt(self, type, name_snake_case, type_kind):
         value_name_snake_case = 'value'
 
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind != 'scalar-value-type':
+            raise Exception('Only scalar value types may be optional.')
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -762,8 +767,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             value_name_snake_case = f'{value_name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
         else:
             raise Exception('Only scalar value types may be optional.')
 
@@ -776,7 +779,7 @@ class Generator:
                                             type,
                                             name_snake_case,
                                             type_kind):
-        if type in SCALAR_VALUE_TYPES:
+        if type_kind == 'scalar-value-type':
             if type in ['sint32', 'sint64']:
                 type = type[1:]
             elif type in ['fixed32', 'fixed64']:
-- 
2.43.0


From e5a4e0b7a02b423d36d74a5a5c73fc22a48e1bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 28/37] fix: include guard of files with names that start with
 a digit

---
 pbtools/c_source/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 2146c1d..cddb635 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1363,7 +1363,13 @@ class Generator:
         return includes
 
     def generate_include_guard(self):
-        return f'{os.path.splitext(self.header_name)[0].upper()}_H'
+        guard = f'{os.path.splitext(self.header_name)[0].upper()}_H'
+
+        # An identifier can't start with a digit.
+        if guard[0].isdigit():
+            guard = f'_{guard}'
+
+        return guard
 
     def generate(self):
         header = HEADER_FMT.format(
-- 
2.43.0


From 4f54c3dc767d9df3e70d2a285ae36d2a19d52ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 29/37] fix: form feeds and vertical tabs are whitespace

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 876c29e..6e0bb98 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -110,7 +110,7 @@ class Parser(textparser.Parser):
 
     def token_specs(self):
         return [
-            ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
+            ('SKIP',          r'[ \r\n\t\f\v]+|//.*?\n'),
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|0[0-7]*|[1-9][0-9]*)(?!\w)'),
             ('PROTO3',        r'"proto3"'),
-- 
2.43.0


From 94c2f509c5918a23873424969e67b9b7ae3937f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 30/37] fix: files with a byte order mark

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 6e0bb98..7c7fe39 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -512,7 +512,7 @@ class ImportedProto:
         self.path = tokens[2].strip('"')
         self.abspath = find_file(self.path, import_paths)
 
-        with open(self.abspath, encoding='utf-8') as fin:
+        with open(self.abspath, encoding='utf-8-sig') as fin:
             tree = Parser().parse(ignore_comments(fin.read()))
 
         # ToDo: Public imports should be found as well.
@@ -813,7 +813,7 @@ def parse_file(filename, import_paths=None):
     if import_paths is None:
         import_paths = []
 
-    with open(filename, 'r', encoding='utf-8') as fin:
+    with open(filename, 'r', encoding='utf-8-sig') as fin:
         return Proto(Parser().parse(ignore_comments(fin.read())),
                      find_file(filename, import_paths),
                      import_paths)
-- 
2.43.0


From 6ed5b0395cb667c41d32eedfaefa62d332f66ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 31/37] fix: size of lists that do not fit in memory on 32-bit
 targets

---
 lib/src/pbtools.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 7e5bcde..8335a8a 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -117,6 +117,17 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
     return ((void *)addr);
 }
 
+/* Gives a size that can't be allocated if the items do not fit in
+   memory. */
+static size_t items_size(size_t item_size, int length)
+{
+    if ((size_t)length > (SIZE_MAX / item_size)) {
+        return (SIZE_MAX);
+    }
+
+    return (item_size * (size_t)length);
+}
+
 static void encoder_init(struct pbtools_encoder_t *self_p,
                          uint8_t *buf_p,
                          size_t  size)
@@ -1448,7 +1459,7 @@ static int calloc_repeated(struct pbtools_message_base_t *self_p,
 {
     size_t size;
 
-    size = (item_size * (size_t)length);
+    size = items_size(item_size, length);
     repeated_p->items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
 
     if (repeated_p->items_p == NULL) {
@@ -1526,7 +1537,7 @@ static void decoder_decode_repeated(
 
     repeated_p->items_p = decoder_heap_alloc(
         self_p,
-        item_size * (size_t)repeated_info_p->length,
+        items_size(item_size, repeated_info_p->length),
         alignof(uint64_t));
 
     if (repeated_p->items_p == NULL) {
@@ -2191,7 +2202,8 @@ int pbtools_alloc_repeated_string(struct pbtools_message_base_t *self_p,
     int pos;
 
     repeated_p->items_pp = heap_alloc(self_p->heap_p,
-                                      sizeof(*repeated_p->items_pp) * (size_t)length,
+                                      items_size(sizeof(*repeated_p->items_pp),
+                                                 length),
                                       alignof(uint64_t));
 
     if (repeated_p->items_pp == NULL) {
@@ -2415,7 +2427,7 @@ int pbtools_alloc_repeated(
     char *item_p;
 
     repeated_p->items_p = heap_alloc(heap_p,
-                                     item_size * (size_t)length,
+                                     items_size(item_size, length),
                                      alignof(uint64_t));
 
     if (repeated_p->items_p == NULL) {
-- 
2.43.0


From 770f29a6f220e1b6292c14fc2be75fdc18ec231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 32/37] fix: workspaces of 2 GB and more

---
 lib/src/pbtools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 8335a8a..ddb008f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -71,6 +71,11 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
     if ((size >= pad) && ((size - pad) >= sizeof(*heap_p))) {
         addr += pad;
         size -= pad;
+
+        if (size > INT_MAX) {
+            size = INT_MAX;
+        }
+
         heap_p = (struct pbtools_heap_t *)addr;
         heap_p->buf_p = (char *)addr;
         heap_p->size = (int)size;
-- 
2.43.0


From c083f0405f3914ad18e4b8befa88005f2c83f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 33/37] fix: encode buffers of 2 GB and more

---
 lib/src/pbtools.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index ddb008f..104a803 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -137,6 +137,10 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
                          uint8_t *buf_p,
                          size_t  size)
 {
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
     self_p->pos = (int)size;
-- 
2.43.0


From 995d05b0dad98ff3f179935c18226f3ad8ce18c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 34/37] fix: reject input of 2 GB and more

---
 lib/src/pbtools.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 104a803..7077690 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -41,6 +41,9 @@ typedef int (*decoder_read_repeated_t)(struct pbtools_decoder_t *self_p,
                                        void *items_p,
                                        int index);
 
+static void decoder_abort(struct pbtools_decoder_t *self_p,
+                          int error);
+
 static void *decoder_heap_alloc(struct pbtools_decoder_t *self_p,
                                 size_t size,
                                 size_t alignemnt);
@@ -939,6 +942,10 @@ static void decoder_init(struct pbtools_decoder_t *self_p,
     self_p->size = (int)size;
     self_p->pos = 0;
     self_p->heap_p = heap_p;
+
+    if (size > INT_MAX) {
+        decoder_abort(self_p, PBTOOLS_SEEK_OVERFLOW);
+    }
 }
 
 static int decoder_get_result(struct pbtools_decoder_t *self_p)
-- 
2.43.0


From 5e9597bd16bc5563804e3cffd4ebf0ca4b516c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 35/37] fix: report strings and bytes of 2 GB and more as
 buffer full

---
 lib/src/pbtools.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 7077690..7cf35f8 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -176,13 +176,13 @@ static void encoder_abort(struct pbtools_encoder_t *self_p,
 
 static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
-                          int size)
+                          size_t size)
 {
-    if (self_p->pos >= size) {
+    if ((self_p->pos >= 0) && ((size_t)self_p->pos >= size)) {
         /* The buffer may be invalid if the size is zero. */
         if (size > 0) {
-            self_p->pos -= size;
-            memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
+            self_p->pos -= (int)size;
+            memcpy(&self_p->buf_p[self_p->pos], buf_p, size);
         }
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
@@ -203,7 +203,7 @@ static void encoder_write_varint(struct pbtools_encoder_t *self_p,
     } while (value > 0);
 
     buf[pos - 1] &= 0x7f;
-    encoder_write(self_p, &buf[0], pos);
+    encoder_write(self_p, &buf[0], (size_t)pos);
 }
 
 static void encoder_write_tag(struct pbtools_encoder_t *self_p,
@@ -466,7 +466,7 @@ void pbtools_encoder_write_string(struct pbtools_encoder_t *self_p,
     length = strlen(value_p);
 
     if (length > 0) {
-        encoder_write(self_p, (uint8_t *)value_p, (int)length);
+        encoder_write(self_p, (uint8_t *)value_p, length);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -479,7 +479,7 @@ void pbtools_encoder_write_bytes(struct pbtools_encoder_t *self_p,
                                  struct pbtools_bytes_t *value_p)
 {
     if (value_p->size > 0) {
-        encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+        encoder_write(self_p, value_p->buf_p, value_p->size);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -617,7 +617,7 @@ void pbtools_encoder_write_string_always(struct pbtools_encoder_t *self_p,
     size_t length;
 
     length = strlen(value_p);
-    encoder_write(self_p, (uint8_t *)value_p, (int)length);
+    encoder_write(self_p, (uint8_t *)value_p, length);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -628,7 +628,7 @@ void pbtools_encoder_write_bytes_always(struct pbtools_encoder_t *self_p,
                                         int field_number,
                                         struct pbtools_bytes_t *value_p)
 {
-    encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+    encoder_write(self_p, value_p->buf_p, value_p->size);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -911,7 +911,7 @@ void pbtools_encoder_write_repeated_string(
         length = strlen(repeated_p->items_pp[i]);
         encoder_write(self_p,
                       (uint8_t *)repeated_p->items_pp[i],
-                      (int)length);
+                      length);
         encoder_write_length_delimited(self_p, field_number, length);
     }
 }
@@ -926,7 +926,7 @@ void pbtools_encoder_write_repeated_bytes(
     for (i = repeated_p->length - 1; i >= 0; i--) {
         encoder_write(self_p,
                       repeated_p->items_p[i].buf_p,
-                      (int)repeated_p->items_p[i].size);
+                      repeated_p->items_p[i].size);
         encoder_write_length_delimited(self_p,
                                        field_number,
                                        repeated_p->items_p[i].size);
-- 
2.43.0


From a00ca41e43b31c3c38eebb0ec059c0b3681b4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 36/37] fix: Accept the string "proto3" as option value, import
 and reserved name.

---
 pbtools/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 7c7fe39..0543b64 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -137,10 +137,11 @@ class Parser(textparser.Parser):
         ident = choice('IDENT', *self.KEYWORDS)
         full_ident = DelimitedList(ident, '.')
         empty_statement = ';'
+        string = choice('STRING', 'PROTO3')
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
-                          Tag('string', 'STRING'),
+                          Tag('string', string),
                           Tag('integer', 'INT'))
         option_name = Sequence(choice(ident,
                                       Sequence('(', full_ident, ')')),
@@ -153,7 +154,7 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING',
+                           string,
                            ';')
 
         # Package.
@@ -192,7 +193,7 @@ class Parser(textparser.Parser):
                                                         choice('INT', 'max'))))
         reserved = Sequence('reserved',
                             choice(DelimitedList(field_number_range),
-                                   DelimitedList('STRING')),
+                                   DelimitedList(string)),
                             ';')
 
         # Message.
-- 
2.43.0


From e55b0ddf914611e2d1a73bb1cf45ed7fb7a67466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:13 +0000
Subject: [PATCH 37/37] fix: Encoding nothing into a NULL buffer of size zero
 called memmove with NULL.

---
 lib/src/pbtools.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 7cf35f8..e963392 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -155,9 +155,13 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
 
     if (self_p->pos >= 0) {
         length = (self_p->size - self_p->pos);
-        memmove(self_p->buf_p,
-                &self_p->buf_p[self_p->pos],
-                (size_t)length);
+
+        /* The buffer may be NULL if its size is zero. */
+        if (length > 0) {
+            memmove(self_p->buf_p,
+                    &self_p->buf_p[self_p->pos],
+                    (size_t)length);
+        }
     } else {
         length = self_p->pos;
     }
-- 
2.43.0

