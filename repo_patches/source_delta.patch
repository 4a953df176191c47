From 2c34825d8b6298da3603c1ecd4a3e6d9e3de18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:09 +0000
Subject: [PATCH 001/114] fix: brackets in strings and comments, and escaped
 backslashes, no longer break tokens

---
 pdfsyntax/objects.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..b519267 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -67,7 +67,6 @@ def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -102,6 +101,12 @@ def next_token(text: bytes, i=0) -> tuple:
             elif single == b'%':
                 search = "COMMENT"
             h = i
+            if search == "DICT":
+                i += 1
+        elif search in ("DICT", "ARRAY") and (single in b'(%' or (single == b'<' and double != b'<<')):
+            #Brackets inside strings and comments do not count
+            _, i, _ = next_token(text, i)
+            continue
         elif search == "DICT":
             if double == b'<<':
                 nested += 1
@@ -120,7 +125,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\': #Any escaped character
                 i += 1
             elif single == b'(':
                 nested += 1
@@ -158,13 +163,9 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+            if single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
-- 
2.43.0


From d6a7bfa8646416283751ac46f26da1a15bad787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 002/114] fix: parse_obj starts from the token found, not from
 the white space before it

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index b519267..d918afc 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -220,7 +220,7 @@ def parse_obj(text: bytes, start=0) -> Any:
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
 
-        i = start + 2
+        i = h1 + 2
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
@@ -245,7 +245,7 @@ def parse_obj(text: bytes, start=0) -> Any:
         return res
     elif t1 == 'ARRAY':
         res = []
-        i = start + 1
+        i = h1 + 1
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
-- 
2.43.0


From dbef871a6de62c143922fc02b40f1fdb8622d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 003/114] fix: references keep their generation number

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index d918afc..06751b5 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -180,7 +180,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From 9b92ddcef30f9c9dfe847f4c6c2af5fdf6bdc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 004/114] fix: serialize reals without exponent

---
 pdfsyntax/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 06751b5..cd4c52b 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -3,6 +3,7 @@
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
+from decimal import Decimal
 from .filters import *
 #from .filestruct import expand_xref_index
 
@@ -449,7 +450,8 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        #PDF has no exponential notation
+        return format(Decimal(str(obj)), 'f').encode('ascii')
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From 00e26749d593b79652176151de6c3367efe73eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:49 +0000
Subject: [PATCH 005/114] fix: a stream without data is still written as a
 stream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index cd4c52b..77952d1 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -483,7 +483,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From af46897e465a4d9d4e70c4e6efc3f2ac37fcd68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:50 +0000
Subject: [PATCH 006/114] fix: /Length does not count the end of line before
 endstream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 77952d1..150c0f1 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -34,7 +34,7 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
+    length = len(encoded)
     if '/Length' in entries and type(entries['/Length']) == int:
         entries['/Length'] = length
     return length
-- 
2.43.0


From b6e8dd249d465627a58f6b342ee190eec6146f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:50 +0000
Subject: [PATCH 007/114] fix: serialize a missing object as null

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 150c0f1..952cc98 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -459,6 +459,8 @@ def to_str(obj) -> bytes:
         return s.encode('ascii')
     elif type(obj) == bytes:
         return obj
+    elif obj is None:
+        return b'null'
     else:
         return obj.encode('ascii')
 
-- 
2.43.0


From 929f420914b559387df29802c5955a76f20c10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:22 +0000
Subject: [PATCH 008/114] fix: stream data is delimited by /Length when it is
 right

---
 pdfsyntax/objects.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 952cc98..5d33219 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -205,6 +205,22 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return text
 
 
+def stream_span(text: bytes, start: int, entries: dict) -> tuple:
+    """Locate stream data with /Length: start of data, end of data, end of endstream keyword."""
+    length = entries.get('/Length')
+    if type(length) != int or length < 0:
+        return None
+    i = start + len(b'stream')
+    i += 2 if text[i:i+2] == b'\r\n' else 1
+    j = i + length
+    k = j
+    while text[k:k+1] in (b'\r', b'\n'):
+        k += 1
+    if text[k:k+9] != b'endstream': #Wrong /Length
+        return None
+    return i, j, k + 9
+
+
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
@@ -217,6 +233,9 @@ def parse_obj(text: bytes, start=0) -> Any:
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
             stream_encoded =  parse_obj(following_obj)
+            span = stream_span(text, h2, stream_def)
+            if span:
+                stream_encoded = text[span[0]:span[1]]
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
@@ -301,6 +320,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o = parse_obj(text, i)
     i, j, t = next_token(text, j)
     if t == 'STREAM':
+        span = stream_span(text, i, o['entries'])
+        if span:
+            j = span[2]
         _, j, _ = next_token(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
-- 
2.43.0


From 619888bd11a44a02d9767e87dbf00e45530f5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:23 +0000
Subject: [PATCH 009/114] fix: a forged stream always has the right direct
 /Length

---
 pdfsyntax/objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 5d33219..a00adcb 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -35,8 +35,7 @@ def update_internal_stream_length(stream: Stream):
     entries = stream['entries']
     encoded = stream['encoded']
     length = len(encoded)
-    if '/Length' in entries and type(entries['/Length']) == int:
-        entries['/Length'] = length
+    entries['/Length'] = length
     return length
 
 
-- 
2.43.0


From 91cdd227cbc1c1c1b9bb1e1dcaf78a0b5c2feb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:59 +0000
Subject: [PATCH 010/114] fix: last atom of an object stream is parsed and
 comments are not objects

---
 pdfsyntax/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a00adcb..0484198 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -329,14 +329,15 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
 def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     """List objects embedded within an object stream (/ObjStm)."""
     res = []
-    data = obj_stream['stream']
+    data = obj_stream['stream'] + b' ' #End of last token
     offset = int(obj_stream['entries']['/First'])
     theorical_nb_obj = int(obj_stream['entries']['/N'])
     i = 0
     tokens = []
     while i < len(data):
         bo, eo, typ = next_token(data, i)
-        tokens.append(bo)
+        if typ and typ != 'COMMENT':
+            tokens.append(bo)
         i = eo
     actual_nb_obj = len(tokens) // 3
     actual_offset = tokens[2 * actual_nb_obj]
-- 
2.43.0


From ef509f3fafc300d2e677720a13f2e2033fd931d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 011/114] fix: each filter of a chain decodes the result of the
 previous one

---
 pdfsyntax/filters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..b14e12c 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -38,10 +38,11 @@ def decode_stream(stream, stream_def):
         parms = stream_def['/DecodeParms']
         if type(parms) == dict:
             parms = [parms]
+    res = s
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
-                res = zlib.decompress(s)
+                res = zlib.decompress(res)
                 if parms[i] and '/Predictor' in parms[i]:
                     predictor = int(parms[i]['/Predictor'])
                     columns = int(parms[i]['/Columns'])
@@ -50,12 +51,12 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                res = binascii.unhexlify(res)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                res = base64.a85decode(res, adobe=True)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
-- 
2.43.0


From 02560b95b021b69949f860f2b9389e048d1c0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 012/114] fix: filters are applied in reverse order to encode

---
 pdfsyntax/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index b14e12c..28bc288 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -70,9 +70,9 @@ def encode_stream(stream, stream_def):
         return stream
     filters = stream_def['/Filter']
     if type(filters) == str:
-        filters = [filters]
+        filters = filters.split()
     res = stream
-    for _, f in enumerate(filters):
+    for f in reversed(filters): #The last filter to decode is the first to encode
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From d0b42082060ebadd0a35b277df608e5401027d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:59 +0000
Subject: [PATCH 013/114] fix: ASCIIHex end marker, white space and odd number
 of digits

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 28bc288..9b2e5e0 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -51,7 +51,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(res)
+                res = b''.join(res.split(b'>')[0].replace(b'\x00', b' ').split())
+                res = binascii.unhexlify(res + b'0' * (len(res) % 2))
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
@@ -80,7 +81,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = asciihex(res)
+                res = asciihex(res) + b'>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
-- 
2.43.0


From fe9b67628d23572f5998211c903be396a0e3a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:59 +0000
Subject: [PATCH 014/114] fix: ASCII85 data ends at its end marker and does not
 start with one

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 9b2e5e0..8cb00f8 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -57,7 +57,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(res, adobe=True)
+                res = res[:res.find(b'~>') + 2].lstrip()
+                res = base64.a85decode(res, adobe=True, ignorechars=b' \t\n\r\x0b\x0c\x00')
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
@@ -86,7 +87,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85encode(res, adobe=True)
+                res = base64.a85encode(res) + b'~>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCII85'
         else:
-- 
2.43.0


From fc3cbc03920c6f7bb0d056113b86949e16f55100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:00 +0000
Subject: [PATCH 015/114] fix: PNG prediction follows row tags and parameters,
 and is applied to encode

---
 pdfsyntax/filters.py | 82 ++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 8cb00f8..d2b22bc 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -6,23 +6,62 @@ import base64
 
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
-def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
-    """ """
-    size = len(bdata)
+def paeth(a: int, b: int, c: int) -> int:
+    """PNG Paeth predictor."""
+    p = a + b - c
+    return min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
+
+
+def predictor_row(parms: dict) -> tuple:
+    """Return the size of a row and of a pixel in bytes."""
+    bits = int(parms.get('/Colors', 1)) * int(parms.get('/BitsPerComponent', 8))
+    columns = int(parms.get('/Columns', 1))
+    return (columns * bits + 7) // 8, max(1, bits // 8)
+
+
+def decode_predictor(bdata: bytes, parms: dict) -> bytes:
+    """Undo PNG prediction, according to the tag at the beginning of each row."""
+    predictor = int(parms.get('/Predictor', 1))
+    if predictor == 1:
+        return bdata
+    elif predictor < 10:
+        raise ValueError('unsupported predictor')
+    columns, bpp = predictor_row(parms)
     res = b''
-    columns += 1
-    prev_row = [0] * columns
-    i = 0
-    while i < size:
-        row = list(bdata[i:i+columns])
-        # Predictor 12, PNG Up
-        decoded_row = [(val + prev_row[index]) & 0xff for (index, val) in enumerate(row)]
-        prev_row = decoded_row
-        res += bytes(decoded_row[1:])
-        i += columns
+    prev_row = bytes(columns)
+    for i in range(0, len(bdata), columns + 1):
+        tag = bdata[i]
+        row = bytearray(bdata[i+1:i+1+columns])
+        for j, val in enumerate(row):
+            left = row[j-bpp] if j >= bpp else 0
+            up = prev_row[j]
+            up_left = prev_row[j-bpp] if j >= bpp else 0
+            row[j] = (val + (0, left, up, (left + up) // 2, paeth(left, up, up_left))[tag]) & 0xff
+        prev_row = row
+        res += bytes(row)
     return res
 
 
+def encode_predictor(bdata: bytes, parms: dict) -> bytes:
+    """Apply the simplest PNG prediction (None)."""
+    predictor = int(parms.get('/Predictor', 1))
+    if predictor == 1:
+        return bdata
+    elif predictor < 10:
+        raise ValueError('unsupported predictor')
+    columns, _ = predictor_row(parms)
+    return b''.join(b'\x00' + bdata[i:i+columns] for i in range(0, len(bdata), columns))
+
+
+def filter_parms(stream_def: dict, nb: int) -> list:
+    """List the parameters of each filter (an empty dict when missing)."""
+    parms = stream_def.get('/DecodeParms')
+    if type(parms) != list:
+        parms = [parms]
+    parms = parms[:nb] + [None] * (nb - len(parms))
+    return [p if type(p) == dict else {} for p in parms]
+
+
 def decode_stream(stream, stream_def):
     """Apply all specified filters in order to decode stream."""
     s = stream
@@ -32,21 +71,13 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
-    if '/DecodeParms' not in stream_def:
-        parms = [None] * len(filters)
-    else:
-        parms = stream_def['/DecodeParms']
-        if type(parms) == dict:
-            parms = [parms]
+    parms = filter_parms(stream_def, len(filters))
     res = s
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
                 res = zlib.decompress(res)
-                if parms[i] and '/Predictor' in parms[i]:
-                    predictor = int(parms[i]['/Predictor'])
-                    columns = int(parms[i]['/Columns'])
-                    res = decode_predictor(res, predictor, columns)
+                res = decode_predictor(res, parms[i])
             except:
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
@@ -74,10 +105,11 @@ def encode_stream(stream, stream_def):
     if type(filters) == str:
         filters = filters.split()
     res = stream
-    for f in reversed(filters): #The last filter to decode is the first to encode
+    parms = filter_parms(stream_def, len(filters))
+    for f, p in reversed(list(zip(filters, parms))): #The last filter to decode is the first to encode
         if f == '/FlateDecode':
             try:
-                res = zlib.compress(res)
+                res = zlib.compress(encode_predictor(res, p))
             except:
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
-- 
2.43.0


From 9dd631501c74e90bef5f181f4a6d4290d2d80b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:00 +0000
Subject: [PATCH 016/114] fix: an indirect filter name is unsupported, not an
 exception

---
 pdfsyntax/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index d2b22bc..81b1a2b 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -71,6 +71,8 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
+    elif type(filters) != list: #Indirect reference
+        return b'#PDFSyntaxException: unsupported filter'
     parms = filter_parms(stream_def, len(filters))
     res = s
     for i, f in enumerate(filters):
@@ -104,6 +106,8 @@ def encode_stream(stream, stream_def):
     filters = stream_def['/Filter']
     if type(filters) == str:
         filters = filters.split()
+    elif type(filters) != list: #Indirect reference
+        return b'#PDFSyntaxException: unsupported filter'
     res = stream
     parms = filter_parms(stream_def, len(filters))
     for f, p in reversed(list(zip(filters, parms))): #The last filter to decode is the first to encode
-- 
2.43.0


From a445b42f52b68a3386f7f6dfccc2e2e4cc6719af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:42 +0000
Subject: [PATCH 017/114] fix: octal codes of 1 to 3 digits, line continuations
 and ends of line in literal strings

---
 pdfsyntax/text.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..512a1fb 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -67,12 +67,20 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            octal = string[i+1:i+4]
+            while octal.strip(b'01234567'): #1 to 3 digits
+                octal = octal[:-1]
+            if octal:
+                ret += bytes([int(octal, 8) & 0xff])
+                i += len(octal)
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
+            elif second in (b'\r', b'\n'): #Line continuation
+                i += 2 if string[i+1:i+3] == b'\r\n' else 1
+        elif first == b'\r': #Any end of line is a line feed
+            ret += b'\n'
+            i += 1 if second == b'\n' else 0
         else:
             ret += first
         i += 1
-- 
2.43.0


From c8fc708d7dc14222a3698772a412be6099be088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:42 +0000
Subject: [PATCH 018/114] fix: hexadecimal strings of any case, length and
 white space, and escaped UTF-16 byte order marks

---
 pdfsyntax/text.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 512a1fb..ca81ae0 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -25,28 +25,21 @@ def decode_pdfdoc(string: bytes) -> str:
     return ''.join(chars)
 
 
+def string_bytes(string: bytes) -> bytes:
+    """Return the bytes denoted by a literal or hexadecimal string."""
+    if string[0:1] == b'<':
+        digits = b''.join(string[1:-1].replace(b'\x00', b' ').split())
+        return bytes.fromhex((digits + b'0' * (len(digits) % 2)).decode('ascii'))
+    return unescape_literal_string(string[1:-1])
+
+
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
     if string is None: return None
-    res = ''
-    string = unescape_literal_string(string)
-    if string[0:1] == b'(': # Literal string
-        if string[1:3] == b'\xfe\xff': 
-            res = string[3:-1].decode('utf-16be')
-        else:
-            s = string[1:-1]
-            # = s.replace(b'\x5c\x5c', b'\x5c') # x5c is backslash
-            # = s.replace(b'\x5c(', b'(')
-            # = s.replace(b'\x5c)', b')')
-            res = decode_pdfdoc(s)
-    elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
-        else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
-            res = decode_pdfdoc(b)
-    return res
+    b = string_bytes(string)
+    if b[:2] == b'\xfe\xff':
+        return b[2:].decode('utf-16be')
+    return decode_pdfdoc(b)
 
 
 def unescape_literal_string(string: bytes) -> bytes:
-- 
2.43.0


From b0f230b9af12e4d7c82968511d640e642553415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:43 +0000
Subject: [PATCH 019/114] fix: hexadecimal strings shown with any font

---
 pdfsyntax/text.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index ca81ae0..ccd49e4 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -82,18 +82,13 @@ def unescape_literal_string(string: bytes) -> bytes:
 
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
-    s_string = string[1:-1]
-    if string[:1] == b'(':
-        s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
-    else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+    s_string = string_bytes(string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
-    s = string[1:-1]
-    s = unescape_literal_string(s)
+    s = string_bytes(string)
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-- 
2.43.0


From 6177701bac20a773d6e980031b934b4ae73de049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:04 +0000
Subject: [PATCH 020/114] fix: bfrange targets keep their length, whatever the
 length of codes

---
 pdfsyntax/text.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index ccd49e4..0fcc2d4 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -145,12 +145,9 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
                         temp = target[token - r_a][1:-1]
                         tokens[k] = bytes.fromhex(temp.decode('ascii')).decode('utf-16be')
                     else:
-                        target = cmap[i+2][1:-1]
-                        x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
+                        target = string_bytes(cmap[i+2])
+                        x = int.from_bytes(target, 'big') + (token - r_a)
+                        tokens[k] = x.to_bytes(len(target), 'big').decode('utf-16be')
             i += 3
             continue
         if section == 'RANGE' and cmap[i] == 'endbfrange':
-- 
2.43.0


From ac7f803918137b1d7b6a9e893ba99da7993f79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:04 +0000
Subject: [PATCH 021/114] fix: a ToUnicode map without entry maps to no text

---
 pdfsyntax/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 0fcc2d4..ee99af5 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -155,6 +155,9 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             i += 1
             continue
         i += 1
+    if not tokens: #No mapping at all
+        tokens = tokenize_string(string, 1 if simple else 2)
+        tokens_backup = tokens.copy()
     for j, t in enumerate(tokens):
         if type(t) != str:
             #for DEBUG
-- 
2.43.0


From 2fb943b0f1055220276f8e14b6d52c2e41e2410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:05 +0000
Subject: [PATCH 022/114] fix: undefined codes of an encoding produce no text

---
 pdfsyntax/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index ee99af5..770dd90 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -92,7 +92,7 @@ def apply_encoding(encoding: str, string: bytes) -> tuple:
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-        us = s.decode('cp1252')
+        us = s.decode('cp1252', errors='ignore')
     return us, list(s)
 
 
-- 
2.43.0


From 62c81270090da019384a1d73bfa27a4fb5bfce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:05 +0000
Subject: [PATCH 023/114] fix: CID default width applies when there is no width
 array

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..cee3c33 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -879,7 +879,7 @@ def prepare_w(w, default_w):
     width = {}
     if not w:
         def char_width_cid_default(character_num):
-            return 500
+            return default_w
         return char_width_cid_default
     while i < len(w):
         if type(w[i+1]) == list:
-- 
2.43.0


From 0c24042208cd6d6b9ef35b5a8e82ce35794b0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 024/114] fix: TJ adjustments move the text by their own value

---
 pdfsyntax/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 770dd90..8639a88 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -185,10 +185,10 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 for c in chars:
                     width += fonts[font]['char_width'](c) / 1000
             else:
+                width -= t/1000
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
                 t -= space_char_width * 0.2
-                if t <= -space_char_width:
+                if space_char_width >= 1 and t <= -space_char_width:
                     nb_char = int(-t) // int(space_char_width)
                     ustring += ' ' * nb_char
-                width -= t/1000
     return ustring, width
-- 
2.43.0


From fea8828e609e5326cbda511353e5f2d93788af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 025/114] fix: q and Q save and restore text state parameters

---
 pdfsyntax/graphics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..ca7eadb 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -52,8 +52,12 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
     if command[-1] == 'q':
         state_backup = deepcopy(current_state)
         graphics_state_stack.append(state_backup)
+        current_state['ts'] = text_state.copy()
     elif command[-1] == 'Q':
         graphics_state_stack.pop()
+        for k, v in graphics_state_stack[-1]['ts'].items():
+            if k not in ('tm', 'tlm'): #Only parameters are part of the graphics state
+                text_state[k] = v
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
-- 
2.43.0


From 0fe97da74e6ad82705762ca52507f7efe9680f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:07 +0000
Subject: [PATCH 026/114] fix: content streams of a page are separate tokens

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..3edf7cd 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -350,7 +350,7 @@ def build_text_fragments(page_contents: list, f: list):
     ts = {}
     c_all = b''
     for c in page_contents:
-        c_all += c['stream']
+        c_all += c['stream'] + b'\n' #Token separator
     t =parse_stream_content(c_all)
     for te in t:
         if te[-1] not in 'lmchnfgGref*':
-- 
2.43.0


From 47ae83b270f7822148c2e3b064230e1da048da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:08 +0000
Subject: [PATCH 027/114] fix: text shown by ' and " operators is extracted

---
 pdfsyntax/api.py     | 2 ++
 pdfsyntax/objects.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 3edf7cd..fcafadb 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -358,6 +358,8 @@ def build_text_fragments(page_contents: list, f: list):
              pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
+        if te[-1] == "'" or te[-1] == '"':
+            te = [te[-2], 'Tj']
         if te[-1] == 'TJ' or te[-1] == 'Tj':
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 0484198..f6a810c 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -92,7 +92,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From 1143c458132964d8eebd7d0b3223c7d495552fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:08 +0000
Subject: [PATCH 028/114] fix: fonts of inherited, indirect or missing
 resources

---
 pdfsyntax/docstruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index cee3c33..71f2087 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -963,10 +963,10 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     for page_num in page_nums:
         fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
+        page = pages(doc)[page_num]
+        resources = page.get('/Resources')
         if resources:
-            fonts = get_object(doc, resources)['/Font']
+            fonts = get_object(doc, get_object(doc, resources).get('/Font', {}))
         for font in fonts:
             font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
-- 
2.43.0


From a5eb684a4fb2bcbc1522af767966d08e1ff5e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:09 +0000
Subject: [PATCH 029/114] fix: fonts without name

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 71f2087..6025864 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -916,7 +916,7 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc = {}
     o = get_object(doc, iref)
     font_desc['iref'] = iref
-    font_desc['name'] = o['/BaseFont']
+    font_desc['name'] = o.get('/BaseFont', '') #Not in Type3 fonts
     font_desc['type'] = o['/Subtype']
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
-- 
2.43.0


From c807acdc292c2b4637878aa6c4352f896fdd199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:10 +0000
Subject: [PATCH 030/114] fix: a font named twice by a page lists that page
 once

---
 pdfsyntax/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index fcafadb..d6cd88e 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -293,7 +293,8 @@ def fonts(doc: Doc) -> dict:
                           'pages': [],
                           'to_unicode': u,
                           }
-            ret[o]['pages'].append(i)
+            if i not in ret[o]['pages']:
+                ret[o]['pages'].append(i)
     return ret
 
 
-- 
2.43.0


From 94044af994a816b3ae542182b02e9f11541e655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:10 +0000
Subject: [PATCH 031/114] fix: pages without contents

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index d6cd88e..251290c 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -325,7 +325,7 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
     """List all content streams of a page."""
     ret = []
     pages = flat_page_tree(doc)
-    i_c = get_object(doc, pages[page_num][0])['/Contents']
+    i_c = get_object(doc, pages[page_num][0]).get('/Contents', [])
     if type(i_c) == complex:
         i_c = [i_c]
     for content in i_c:
-- 
2.43.0


From e4d7c4326eb6be79d69763d27df70afd97e03a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:26 +0000
Subject: [PATCH 032/114] fix: inherited page attributes do not leak between
 calls

---
 pdfsyntax/docstruct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6025864..3c5708d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -302,9 +302,10 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    inherited = dict(inherited or {}) #Never shared between calls
     if num:
         node = get_object(doc, num)
     else:
@@ -313,7 +314,7 @@ def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
         for kid in node['/Kids']:
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
+            accu = accu + flat_page_tree(doc, kid, inherited, max_nb)
             if max_nb is not None and len(accu) == max_nb:
                 return accu
         return accu
-- 
2.43.0


From 0b18e62bc8f9bcec85f9afbf880d5daff8f77dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:27 +0000
Subject: [PATCH 033/114] fix: page list limit

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3c5708d..0a02485 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -315,8 +315,8 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited, max_nb)
-            if max_nb is not None and len(accu) == max_nb:
-                return accu
+            if max_nb is not None and len(accu) >= max_nb:
+                return accu[:max_nb]
         return accu
     elif node['/Type'] == '/Page':
         return[(num, inherited)]
-- 
2.43.0


From 393e0f5aefd1cc69853c22bfeee6c99301386377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:28 +0000
Subject: [PATCH 034/114] fix: indirect /Kids and /Count

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 0a02485..53e3976 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -311,7 +311,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     else:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
+        for kid in get_object(doc, node['/Kids']):
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited, max_nb)
@@ -492,7 +492,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
-- 
2.43.0


From 55d100503aa200b5957c746ec90981c88baf35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:28 +0000
Subject: [PATCH 035/114] fix: objects added and deleted in the same revision,
 or deleted twice, are not changes

---
 pdfsyntax/docstruct.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 53e3976..eb5d206 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -365,16 +365,16 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
-        if i > len(previous)-1:
+        old = previous[i] if i < len(previous) else None
+        if old is not None and 'DELETED' in old:
+            old = None
+        if 'DELETED' in current[i]:
+            if old is not None:
+                res.append((iref, 'd'))
+        elif old is None:
             res.append((iref, 'a'))
-        elif i < len(previous) and previous[i] == current[i]:
-            pass
-        elif previous[i] != None and 'DELETED' not in previous[i] and 'DELETED' in current[i]:
-            res.append((iref, 'd'))
-        elif previous[i] != None and current[i] != previous[i]:
+        elif old != current[i]:
             res.append((iref, 'u'))
-        else:
-            res.append((iref, 'a'))
     return res
 
 
-- 
2.43.0


From 373344f78377ffcc8b8ab200c417e8a41d5e0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:29 +0000
Subject: [PATCH 036/114] fix: changes of any revision

---
 pdfsyntax/docstruct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index eb5d206..4ab94ef 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -355,10 +355,11 @@ def changes(doc: Doc, rev: int=-1):
     """List deleted/updated/added objects."""
     res = []
     current = doc.index[rev]
-    if len(doc.index) == 1:
+    nb = rev if rev >= 0 else rev + len(doc.index)
+    if nb == 0:
         previous = [None] * len(current)
     else:
-        previous = doc.index[rev-1]
+        previous = doc.index[nb-1]
     for i in range(1, len(current)):
         iref = get_iref(doc, i, rev)
         if not iref:
-- 
2.43.0


From 2fb560a316dd9aa8b5e3bb82eea57c038678f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:29 +0000
Subject: [PATCH 037/114] fix: a loaded document always gets a new revision,
 even after an update without object

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4ab94ef..697850c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -549,7 +549,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
 def commit(doc: Doc) -> Doc:
     """Add new index for incremental update."""
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and 'eof_cut' not in doc.data[-1]: #Revisions of a file are always closed
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
-- 
2.43.0


From 3c548faf4c9fa530ff95e518dd64d976fb36e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 038/114] fix: references to missing objects resolve to nothing

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 697850c..6bb97a0 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -224,7 +224,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     """
     if cache is None:
         cache = (key + 1) * [None]
-    if 'DELETED' in idx[rev][key]:
+    if key >= len(idx[rev]) or idx[rev][key] is None or 'DELETED' in idx[rev][key]:
         return cache
     if  cache[key] != None:
         return cache
@@ -289,7 +289,7 @@ def get_object(doc: Doc, obj):
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
-        return deepcopy(res[ref])
+        return deepcopy(res[ref]) if ref < len(res) else None
     else: 
         return deepcopy(obj)
 
-- 
2.43.0


From 56ac808606980a3eb14297dd76e20606e38e4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 039/114] fix: loading an object stream does not overwrite
 superseded or modified objects

---
 pdfsyntax/docstruct.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6bb97a0..c1a75dd 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -275,12 +275,16 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            current = idx[rev][o_num] if o_num < len(idx[rev]) else None
+            if cache[o_num] is None and current and current.get('env_num') == container:
+                #Definition is neither superseded nor modified
+                cache[o_num] = embedded_obj
     return cache
 
 
-- 
2.43.0


From 15b8b0ad54e63525e123d817ead17412a0b27895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:31 +0000
Subject: [PATCH 040/114] fix: objects freed by a file are deleted

---
 pdfsyntax/filestruct.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..f529af7 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -178,6 +178,8 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             offset, o_num, o_gen, keyword = line
             if keyword != b'f' and o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
+            elif o_num != 0:
+                xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
     trailer = {
@@ -216,6 +218,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -309,7 +312,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max(i['o_num'] for x in chrono for i in x)
     return chrono, nxt, nb
 
 
@@ -365,7 +368,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -631,7 +634,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -651,7 +654,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From dae1ba986f3cd7a39c6a37333e8aeb47ea37fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:22 +0000
Subject: [PATCH 041/114] fix: generation of objects freed by a file

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index f529af7..56b2e03 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -179,7 +179,7 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             if keyword != b'f' and o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             elif o_num != 0:
-                xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+                xref.append({'o_num': o_num, 'o_gen': max(o_gen - 1, 0), 'DELETED': True})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
     trailer = {
@@ -218,7 +218,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
-            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+            xref.append({'o_num': o_num, 'o_gen': max(o_gen - 1, 0), 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
-- 
2.43.0


From a00495542d7a5b2441fa45845739c59b1d041cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:23 +0000
Subject: [PATCH 042/114] fix: objects indexed by the table of a hybrid section
 are not lost

---
 pdfsyntax/filestruct.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 56b2e03..f497602 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -329,11 +329,12 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
     new_xref_seq = []
     for x in xref_seq:
         if x[0].get('xref_stm'):
+            #Table entries come first, then entries of the stream for hidden objects
             p = new_xref_seq[-1]
-            p = deepcopy(p)
-            p[0]['xref_stm'] = True
-            p[0]['abs_pos'] = x[0]['abs_pos']
-            new_xref_seq[-1] = p
+            in_table = {i['o_num'] for i in x[1:] if 'DELETED' not in i}
+            hidden = [i for i in deepcopy(p[1:]) if i['o_num'] not in in_table]
+            in_stream = {i['o_num'] for i in hidden}
+            new_xref_seq[-1] = [x[0]] + hidden + [i for i in x[1:] if i['o_num'] not in in_stream]
         else:
             new_xref_seq.append(x)
     for x in new_xref_seq:
-- 
2.43.0


From 9d4f5ea4f5e846e5325da1d33c04e2561277cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:23 +0000
Subject: [PATCH 043/114] fix: hybrid sections are detected in any revision

---
 pdfsyntax/docstruct.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c1a75dd..200bc3e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -474,10 +474,11 @@ def encrypted(doc: Doc) -> bool:
 
 def hybrid(doc: Doc) -> bool:
     """Detect if doc is hybrid."""
-    if len(doc.index) >= 2 and doc.index[1][0].get('xref_stm'):
-        return True
-    else:
-        return False
+    for current in doc.index:
+        trailers = current[0] if type(current[0]) == list else [current[0]]
+        if any(t.get('xref_stm') for t in trailers):
+            return True
+    return False
 
 
 def catalog(doc: Doc):
-- 
2.43.0


From 3697a2a1d6087512d7c7570e3d808c2a52c2be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:24 +0000
Subject: [PATCH 044/114] fix: the first revision of a linearized file ends
 after its main part

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index f497602..787d517 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -350,6 +350,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
+            if obj['o_num'] == -1 and type(m[0]) == list and m[-1]['abs_pos'] > obj['abs_pos']:
+                continue #Linearized revision ends after its main part
             if m[obj['o_num']] is None:
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
-- 
2.43.0


From 835de3c5f4bca77fce5f60f1f25a481ae9d8223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:24 +0000
Subject: [PATCH 045/114] fix: windows of composite data providers

---
 pdfsyntax/docstruct.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 200bc3e..e42897b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -530,24 +530,20 @@ def revision_index(doc: Doc, rev=-1) -> int:
 def merge_fdata(fdata: Callable, index: int, bdata: bytes):
     """Merge a data provider and bytes into a new composite data provider."""
     def composite_fdata(start_pos: int, length: int) -> tuple:
+        size = index + len(bdata)
         if start_pos == None and length == -1:
-            #_, _, _, sz = fdata(None, -1)
-            sz = index
-            return (None, None, None, sz + len(bdata))
-        if start_pos > index:
-            start_pos = start_pos - index
-            #if start_pos == -1 and length == 0:
-            #    return (None, None, None, len(bdata))
-            if length == -1:
-                length = len(bdata) - start_pos
-            if start_pos == -1:
-                i = len(bdata) - length
-            else:
-                i = start_pos
-            return (bdata, i, 0, min(len(bdata) - start_pos, length))
-            #return (bdata, i, index, min(len(bdata) - start_pos, length)) #TODO
+            return (None, None, None, size)
+        start = (start_pos + size) % size
+        if length == -1:
+            nb_read = size - start
         else:
-            return fdata(start_pos, length)
+            nb_read = min(size - start, length)
+        if start >= index:
+            return (bdata, start - index, index, nb_read)
+        buf, i, offset, n = fdata(start, min(nb_read, index - start))
+        if nb_read > n: #Window straddles both parts
+            return (buf[i:i+n] + bdata[:nb_read-n], 0, start, nb_read)
+        return (buf, i, offset, n)
     return composite_fdata
 
 
-- 
2.43.0


From eb6100b3e2c10a3f6417b5066b5325192c38c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:25 +0000
Subject: [PATCH 046/114] fix: on-demand data provider

---
 pdfsyntax/api.py        |  2 +-
 pdfsyntax/filestruct.py | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 251290c..b496731 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -110,7 +110,7 @@ def writefile(doc: Doc, filename: str = None) -> Doc:
     if eof_rev >= 0:
         eof_cut = doc.data[eof_rev]['eof_cut']
         prov = doc.data[0]['fdata'](0, eof_cut)
-        bdata += prov[0][prov[1]:eof_cut]
+        bdata += prov[0][prov[1]:prov[1]+prov[3]]
         idx += len(bdata)
     #else:
         #FILE_HEADER = b'%PDF-' + version(doc).encode('ascii') + b'\n'
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 787d517..98a3344 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -52,7 +52,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
@@ -97,7 +97,7 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i:i+LN]
+        l = buf[i-i0:i-i0+LN]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
@@ -270,14 +270,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             xrefstm = False
         elif prev:
             xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
@@ -288,7 +290,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_token(bdata, a0) #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_token(bdata, j)       #o_ver
             i, j, _ = next_token(bdata, j)       #b'obj'
@@ -386,13 +388,13 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
 
 def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
-    bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
+    bdata, start, offset, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return offset + i
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From beccc9e352132761bf74275ee551ae4c6a9df652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:12 +0000
Subject: [PATCH 047/114] fix: windows of in-memory data provider

---
 pdfsyntax/filestruct.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 98a3344..78c4065 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -59,15 +59,12 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
 def bdata_dummy(bdata: bytes):
     """ """
     def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
+        if start_pos is None and length == -1:
             return (None, None, None, len(bdata))
+        i = (start_pos + len(bdata)) % len(bdata)
         if length == -1:
-            length = len(bdata) - start_pos
-        if start_pos == -1:
-            i = len(bdata) - length
-        else:
-            i = start_pos
-        return (bdata, i, 0, min(len(bdata) - start_pos, length))
+            length = len(bdata) - i
+        return (bdata, i, 0, min(len(bdata) - i, length))
     return dummy_load
 
 
-- 
2.43.0


From e39416eb710ed94ddec8b632887b12e1c05b901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:13 +0000
Subject: [PATCH 048/114] fix: windows of empty data

---
 pdfsyntax/filestruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 78c4065..54e95bd 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -31,7 +31,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % len(bdata)
+            i = (start_pos + len(bdata)) % (len(bdata) or 1)
             if length == -1:
                 nb_read = len(bdata) - i
             else:
@@ -45,7 +45,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
+            i = (start_pos + file_size) % (file_size or 1)
             if length == -1:
                 nb_read = file_size - i
             else:
@@ -61,7 +61,7 @@ def bdata_dummy(bdata: bytes):
     def dummy_load(start_pos: int, length: int) -> tuple:
         if start_pos is None and length == -1:
             return (None, None, None, len(bdata))
-        i = (start_pos + len(bdata)) % len(bdata)
+        i = (start_pos + len(bdata)) % (len(bdata) or 1)
         if length == -1:
             length = len(bdata) - i
         return (bdata, i, 0, min(len(bdata) - i, length))
-- 
2.43.0


From c26a079cf5abef3187cc47215b269be6db947bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:13 +0000
Subject: [PATCH 049/114] fix: cross-reference table entries are 20 bytes long

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 54e95bd..9229258 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -413,10 +413,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From 33f96e0ae677862092788cf9e9b21f6d6dbef5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 050/114] fix: field widths of a cross-reference stream fit all
 their values

---
 pdfsyntax/filestruct.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 9229258..72b4b30 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -450,20 +450,19 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     index = []
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
-    max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
-    trailer['/W'] = [1, b, b]
+    lines = []
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-            ref = b'\x00' + (next_free[num]).to_bytes(b, "big") + (o_gen+1).to_bytes(b, "big")
-            xref_stream.append((ref, num))
+            lines.append((0, next_free[num], o_gen+1, num))
+        elif env_num:
+            lines.append((2, env_num, counter, num))
         else:
-            if env_num:
-                ref = b'\x02' + (env_num).to_bytes(b, "big") + (counter).to_bytes(b, "big")
-                xref_stream.append((ref, num))
-            else:
-                ref = b'\x01' + (counter).to_bytes(b, "big") + (o_gen).to_bytes(b, "big")
-                xref_stream.append((ref, num))
+            lines.append((1, counter, o_gen, num))
+    b, c = [(max(line[k] for line in lines).bit_length() + 7) // 8 or 1 for k in (1, 2)]
+    trailer['/W'] = [1, b, c]
+    for t, x, y, num in lines:
+        ref = bytes([t]) + x.to_bytes(b, "big") + y.to_bytes(c, "big")
+        xref_stream.append((ref, num))
     # Index 
     i = len(xref_stream) - 1
     num = xref_stream[i][1]
-- 
2.43.0


From 5b5ba30de048913fce5ba4ea3c0e5a85cfab1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 051/114] fix: end of the cross-reference stream object

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 72b4b30..5ca7c84 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -591,7 +591,7 @@ def build_revision_byte_stream(
         xref_table.append(('n', xref_stream_num, 0, counter, None))
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From f63056d563494253649df8b344393e8853b7b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:15 +0000
Subject: [PATCH 052/114] fix: object streams are rebuilt from their current
 objects

---
 pdfsyntax/filestruct.py | 22 ++++++++++++++--------
 pdfsyntax/objects.py    |  1 -
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5ca7c84..26fcc64 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -504,10 +504,7 @@ def append_to_stream_fragment(num, obj, envelope):
     """Concatenate object at the end of stream."""
     ser = serialize(obj) + b'\n'
     entries = envelope['entries'].copy()
-    if '/FirstLine' not in entries:
-        entries['/FirstLine'] = []
-    entries['/FirstLine'].append(num)
-    entries['/FirstLine'].append(len(envelope['stream']))
+    entries['/FirstLine'] = entries.get('/FirstLine', []) + [num, len(envelope['stream'])]
     new_ser = envelope['stream'] + ser
     #Do not encode/forge this temporary Stream yet
     envelope = Stream(entries, new_ser, None)
@@ -551,13 +548,22 @@ def build_revision_byte_stream(
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
     l = [(0j, 'd')] + changes
+    envs = {}
+    for c, action in l:
+        num = int(c.imag)
+        obj = cache[num]
+        if action != 'd' and type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
+            #Object streams are always rebuilt from their current objects
+            entries = {k: v for k, v in obj['entries'].items() if k not in ('/N', '/First', '/Extends')}
+            entries['/FirstLine'] = []
+            envs[num] = Stream(entries, b'', None)
     for c, action in l:
         num = int(c.imag)
         o_gen = current_index[num]['o_gen']
         env_num = current_index[num].get('env_num')
         if action != 'd' and env_num:
-            new_env = append_to_stream_fragment(num, cache[num], cache[env_num])
-            cache[env_num] = new_env
+            new_env = append_to_stream_fragment(num, cache[num], envs[env_num])
+            envs[env_num] = new_env
             xref_table.append(('n', num, o_gen, get_pos_in_stream(new_env), env_num))
     for c, action in l:
         num = int(c.imag)
@@ -572,8 +578,8 @@ def build_revision_byte_stream(
             env_num = current_index[num].get('env_num')
             if not env_num:
                 obj = cache[num]
-                if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
-                    obj = finalize_stream(obj)
+                if num in envs:
+                    obj = finalize_stream(envs[num])
                 block = serialize_fragment(num, o_gen, obj)
                 fragments.append(block)
                 xref_table.append(('n', num, o_gen, counter, env_num))
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index f6a810c..65f4dcd 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -340,7 +340,6 @@ def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
             tokens.append(bo)
         i = eo
     actual_nb_obj = len(tokens) // 3
-    actual_offset = tokens[2 * actual_nb_obj]
     y_array = parse_obj(b'[' + data[:offset] + b']')
     y_pos = [y+offset for j, y in enumerate(y_array) if j % 2]
     for x in range(actual_nb_obj):
-- 
2.43.0


From ef17d12259bc3040bc8462bc293cc7239ad07075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:57 +0000
Subject: [PATCH 053/114] fix: cross-reference stream number of each revision

---
 pdfsyntax/docstruct.py  | 27 +++++++++++++++++++--------
 pdfsyntax/filestruct.py |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e42897b..4cc6d6c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -355,6 +355,15 @@ def in_use(doc: Doc, rev: int=-1) -> list:
     return res
 
 
+def xref_stream_number(current: list) -> int:
+    """Return the number of the object holding the cross-references of a revision.
+
+    It is -1 if the object is to be created, and None if a table is used.
+    """
+    trailer = current[0][-1] if type(current[0]) == list else current[0]
+    return trailer.get('xref_stream_num')
+
+
 def changes(doc: Doc, rev: int=-1):
     """List deleted/updated/added objects."""
     res = []
@@ -368,7 +377,7 @@ def changes(doc: Doc, rev: int=-1):
         iref = get_iref(doc, i, rev)
         if not iref:
             continue
-        if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
+        if xref_stream_number(current) == i:
             continue
         old = previous[i] if i < len(previous) else None
         if old is not None and 'DELETED' in old:
@@ -556,21 +565,23 @@ def commit(doc: Doc) -> Doc:
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
     new_index0 = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev, 'doc_ver': nb_rev}
-    if type(doc.index[0][0]) == dict:
-        x_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        x_num = doc.index[0][0][0].get('xref_stream_num')
+    x_num = xref_stream_number(current_index)
     if x_num:
-        new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
+            new_doc.index[-1].append(None)
+            new_doc.cache.append(None)
+        if new_doc.index[-1][x_num] is None:
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
-            new_doc.index[-1].append(new_index_xs)
-            new_doc.index[-1][0]['xref_stream_num'] = x_num
+            new_doc.index[-1][x_num] = new_index_xs
+        new_index0['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
     if 'eof_cut' not in new_doc.data[-1]:
+        new_doc.index[-1][0] = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev-1, 'doc_ver': nb_rev-1}
+        if x_num:
+            new_doc.index[-1][0]['xref_stream_num'] = x_num
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 26fcc64..d619270 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -311,7 +311,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(i['o_num'] for x in chrono for i in x)
+    nb = max(max(i['o_num'], i.get('xref_stream_num', 0)) for x in chrono for i in x)
     return chrono, nxt, nb
 
 
-- 
2.43.0


From d9071483e211eaa6a0159b43b0e5b450237f9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:57 +0000
Subject: [PATCH 054/114] fix: /Prev of the first update of a linearized file

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4cc6d6c..be2da43 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -603,7 +603,7 @@ def commit(doc: Doc) -> Doc:
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
     if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
+        new_trailer['/Prev'] = new_doc.index[-2][0][-1].get('xref_table_pos') or new_doc.index[-2][0][-1].get('xref_stream_pos')
     else:
         new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
-- 
2.43.0


From 63fe0a5c7eb2fcc867cdfa01ea6e67643a57606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 055/114] fix: a revision reopened by rewind is written again
 as a single section

---
 pdfsyntax/docstruct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index be2da43..ba39d48 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -624,6 +624,12 @@ def rewind(doc: Doc) -> Doc:
     new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))
     for o in objs:
         get_object(new_doc, o)
+    #Revision may be written again, as a single section
+    if type(new_doc.index[-1][0]) == list: #Linearized
+        new_doc.index[-1][0] = new_doc.index[-1][0][-1]
+    new_doc.cache[0].pop('/XRefStm', None)
+    if len(new_doc.index) == 1:
+        new_doc.cache[0].pop('/Prev', None)
     return new_doc
 
 
-- 
2.43.0


From 51b8d296c395073c1bfd20d92bc43416933b2592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 056/114] fix: activating cross-reference streams leaves the
 earlier document as it was

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ba39d48..ce70552 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -706,6 +706,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
     if filt:
+        new_doc.cache[0] = new_doc.cache[0].copy()
         new_doc.cache[0]['/Filter'] = filt
     return new_doc
 
-- 
2.43.0


From aebd3d4bb5e24ceb929d115905d95b4cf15cd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:59 +0000
Subject: [PATCH 057/114] fix: grouping objects into a stream leaves the
 earlier document as it was

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ce70552..22c30b6 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -425,7 +425,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         elif current[o]['o_gen'] != 0:
             continue
         # TODO Add another elif for encryption dict
-        current[o]['env_num'] = env_num
+        current[o] = {**current[o], 'env_num': env_num}
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
 
-- 
2.43.0


From 3f6eb844443cb543329b41f63502246d14008797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:00 +0000
Subject: [PATCH 058/114] fix: modifying a value after giving it to a document
 does not modify the document

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 22c30b6..6545a8a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -669,7 +669,7 @@ def update_object(doc: Doc, num: int, new_o, immut=True) -> Doc:
     else:
         new_doc = doc
     new_doc.index[-1][num] = new_i
-    new_doc.cache[num] = new_o
+    new_doc.cache[num] = deepcopy(new_o)
     return new_doc
 
 
@@ -685,7 +685,7 @@ def add_object(doc: Doc, new_o, immut=True) -> tuple:
     new_doc.index[-1].append(None)
     new_doc.index[-1][num] = new_i
     new_doc.cache.append(None)
-    new_doc.cache[num] = new_o
+    new_doc.cache[num] = deepcopy(new_o)
     return new_doc, complex(0, num)
 
 
-- 
2.43.0


From d6e032a4c73b193a976d769206c81f00ee6785c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:55 +0000
Subject: [PATCH 059/114] fix: gaps in numbering and linearized trailers when
 listing object streams

---
 pdfsyntax/docstruct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6545a8a..45643ad 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -397,6 +397,8 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
+        if not x or type(x) == list:
+            continue
         env_num = x.get('env_num')
         if env_num:
             if env_num not in res:
@@ -432,7 +434,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return set(envelopes(doc))
 
 
 def version(doc: Doc) -> str:
@@ -843,7 +845,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if o is None or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
-- 
2.43.0


From b8f05c4a9eb0c4d6466ec7e581baf7469aad527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:56 +0000
Subject: [PATCH 060/114] fix: squash drops the object streams and
 cross-reference streams of the old file

---
 pdfsyntax/docstruct.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 45643ad..11ec053 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -859,6 +859,8 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
                 del new_o['abs_pos']
             if 'abs_next' in new_o:
                 del new_o['abs_next']
+            new_o.pop('env_num', None)
+            new_o.pop('o_pos', None)
             new_index.append(new_o)
             new_ref = complex(0, nb) 
             if old_ref != new_ref:
@@ -868,15 +870,16 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
 
 def squash(doc: Doc) -> Doc:
     """Group all revisions into a single one."""
-    obj_stms = envelope_objects(doc)
-    if type(doc.index[0][0]) == dict:
-        xref_stream_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
-    if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+    #Object streams and cross-reference streams belong to the old file structure
+    excluded = set()
+    for iref in in_use(doc):
+        obj = get_object(doc, iref)
+        if type(obj) == Stream and obj['entries'].get('/Type') in ('/ObjStm', '/XRef'):
+            excluded.add(int(iref.imag))
+    new_index, mapping = defragment_map(old_index, excluded)
+    if xref_stream_number(old_index):
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
     new_cache[0] = {'/Root': trailer(doc)['/Root']}
-- 
2.43.0


From 07140967f52f222faeb0c66ed9c0b66bbd0e171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:56 +0000
Subject: [PATCH 061/114] fix: squash keeps document information and identifier

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 11ec053..ba5e085 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -882,7 +882,7 @@ def squash(doc: Doc) -> Doc:
         new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
+    new_cache[0] = {k: v for k, v in trailer(doc).items() if k in ('/Root', '/Info', '/ID')}
     new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
-- 
2.43.0


From dd8cdcacbe47d489e178a659f0efef61bc6c1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 062/114] fix: references are retargeted in stream
 dictionaries, and never to another object

---
 pdfsyntax/docstruct.py | 3 +--
 pdfsyntax/objects.py   | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ba5e085..d42a12f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -863,8 +863,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             new_o.pop('o_pos', None)
             new_index.append(new_o)
             new_ref = complex(0, nb) 
-            if old_ref != new_ref:
-                mapping[old_ref] = new_ref
+            mapping[old_ref] = new_ref
     return new_index, mapping
 
 
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 65f4dcd..1fb8809 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -524,10 +524,11 @@ def serialize(obj, depth=0) -> bytes:
 
 
 def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
-    """Recursively replace an indirect reference in object tree.""" 
+    """Recursively replace all indirect references in object tree (by null if not in mapping)."""
     if type(obj) == complex:
-        if obj in mapping:
-            return mapping[obj]
+        return mapping.get(obj, 'null')
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     elif type(obj) == dict:
         for k in obj:
             obj[k] = deep_ref_retarget(obj[k], mapping)
-- 
2.43.0


From 1d4724f762f5b74d029bf94244dea8f44e77a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 063/114] fix: squash always returns a document

---
 pdfsyntax/docstruct.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d42a12f..c1ff495 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -889,9 +889,6 @@ def squash(doc: Doc) -> Doc:
         obj = deep_ref_retarget(obj, mapping)
         new_cache[i] = obj
     new_doc = Doc([new_index], new_cache, new_data)
-    chg = changes(new_doc)
-    if not chg:
-        return b''
     header = f"%PDF-{version(doc)}".encode('ascii')
     new_data[-1]['fdata'] = bdata_dummy(header)
     #new_doc = commit(new_doc) #TODO: keep?
-- 
2.43.0


From 5e76ea863cef8ebd579c32cc9848bc316aa52ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 064/114] fix: concatenated pages have a parent and do not
 inherit from the other document

---
 pdfsyntax/docstruct.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c1ff495..1f112e4 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -738,9 +738,6 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     source_pages = get_object(source_doc, source_pages_iref)
     source_pcount = get_object(source_doc, source_pages['/Count'])
     source_doc = update_object(source_doc, int(source_cat_iref.imag), None)
-    x_num = source_doc.index[-1][0].get('xref_stream_num')
-    if x_num and x_num > 0:
-        source_doc = update_object(source_doc, x_num, None)
     objs = in_use(source_doc)
     ir = complex(0, start_num)
     for iref in objs:
@@ -753,6 +750,15 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     pages_iref = cat['/Pages']
     pages = get_object(new_doc, pages_iref)
     pcount = get_object(new_doc, pages['/Count'])
+    if any(attr in pages for attr in INHERITABLE_ATTRS):
+        #A new root prevents source pages from inheriting these attributes
+        root = {'/Type': '/Pages', '/Kids': [pages_iref], '/Count': pcount}
+        new_doc, root_iref = add_object(new_doc, root, immut=False)
+        pages['/Parent'] = root_iref
+        new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+        cat['/Pages'] = root_iref
+        new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
+        pages_iref, pages = root_iref, root
     kids = get_object(new_doc, pages['/Kids'])
     if target_left:
         kids.append(mapping[source_pages_iref])
@@ -761,6 +767,9 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     pages['/Kids'] = kids
     pages['/Count'] = pcount + source_pcount
     new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+    source_pages = get_object(new_doc, mapping[source_pages_iref])
+    source_pages['/Parent'] = pages_iref
+    new_doc = update_object(new_doc, int(mapping[source_pages_iref].imag), source_pages, immut=False)
     return new_doc
 
 
-- 
2.43.0


From 2f8c5f645ca8884d0efc42838263bc0990ad8132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:59 +0000
Subject: [PATCH 065/114] fix: dependencies of streams, and circular ones

---
 pdfsyntax/docstruct.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 1f112e4..fff8735 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -773,26 +773,24 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
-    """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
+def dependencies(doc: Doc, obj: Any, res: set = None) -> set:
+    """Recursively list indirect references found inside object."""
+    if res is None:
         res = set()
+    if type(obj) == Stream:
+        dependencies(doc, obj['entries'], res)
+    elif type(obj) == dict:
         for k, v in obj.items():
             if k == '/Parent' or k == '/P':
                 continue
-            res = res | dependencies(doc, v)
-        return res
+            dependencies(doc, v, res)
     elif type(obj) == list:
-        res = set()
         for i in obj:
-            res = res | dependencies(doc, i)
-        return res
-    elif type(obj) == complex:
-        res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
-        return res
-    else:   
-        return set()
+            dependencies(doc, i, res)
+    elif type(obj) == complex and obj not in res:
+        res.add(obj)
+        dependencies(doc, get_object(doc, obj), res)
+    return res
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
-- 
2.43.0


From 4cd23c6f0efe0d89cebba831f03a1ad5cedbfc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:00 +0000
Subject: [PATCH 066/114] fix: removing pages keeps all objects that are still
 referenced

---
 pdfsyntax/docstruct.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index fff8735..7ea4d22 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -810,13 +810,9 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         del_pages = {del_pages}
     pages = flat_page_tree(new_doc)
     del_ref = {pages[p][0] for p in del_pages}
-    keep_ref = {p[0] for p in pages} - del_ref
     del_dep = set()
-    keep_dep = set()
     for i in del_ref:
         del_dep = del_dep | dependencies(new_doc, i)
-    for i in keep_ref:
-        keep_dep = keep_dep | dependencies(new_doc, i)
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
@@ -829,7 +825,8 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
             new_parent = get_object(new_doc, p)
             new_parent['/Count'] = new_parent['/Count'] - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-    for ref in del_dep - keep_dep:
+    keep_dep = dependencies(new_doc, trailer(new_doc)) #All that is still reachable
+    for ref in (del_dep - keep_dep) & set(in_use(new_doc)):
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
     return new_doc
 
-- 
2.43.0


From 3e5979762c7af2ef26b9f5e4fcf24c9e974a0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:00 +0000
Subject: [PATCH 067/114] fix: indirect /Kids and /Count when removing pages

---
 pdfsyntax/docstruct.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7ea4d22..dded012 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -816,14 +816,15 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
+        kids = get_object(new_doc, new_parent['/Kids'])
         kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
+        new_parent['/Kids'] = kids
+        new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         while '/Parent' in new_parent:
             p = new_parent['/Parent']
             new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
     keep_dep = dependencies(new_doc, trailer(new_doc)) #All that is still reachable
     for ref in (del_dep - keep_dep) & set(in_use(new_doc)):
-- 
2.43.0


From 8b7d29705cf7e4a79a329bcda36f6548b071e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:01 +0000
Subject: [PATCH 068/114] fix: filter arrays and undecodable streams are left
 as they are by apply_filter

---
 pdfsyntax/api.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index b496731..ed81e1f 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -217,16 +217,19 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
         o = doc.obj(o_num)
         entries = o['entries']
         if '/Filter' in entries:
-            if entries['/Filter'] == flt:
+            filters = entries['/Filter']
+            if type(filters) == str:
+                filters = filters.split()
+            if filters == [flt]:
+                continue
+            if type(filters) != list or any(e not in DECODED_FILTERS for e in filters):
+                continue
+            if o['stream'].startswith(b'#PDFSyntaxException'):
                 continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
         entries = deepcopy(entries)
-        if '/Filter' in entries and flt == '':
-            del entries['/Filter']
-        else:
+        entries.pop('/Filter', None)
+        entries.pop('/DecodeParms', None)
+        if flt:
             entries['/Filter'] = flt
         s, length = forge_stream(entries, o['stream'])
         doc = update_object(doc, o_num, s)
-- 
2.43.0


From e1c69ee0600d398eae36e22a81685f87130668f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:01 +0000
Subject: [PATCH 069/114] fix: any text in annotations

---
 pdfsyntax/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index ed81e1f..f2a8b27 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -238,11 +238,17 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
 
 def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened: bool = False) -> Doc:
     """Add simple text annotation."""
+    if all(' ' <= c <= '~' for c in text):
+        content = text.encode('ascii')
+    else:
+        content = b'\xfe\xff' + text.encode('utf-16be')
+    for c in b'\\()\r':
+        content = content.replace(bytes([c]), b'\\' + (b'r' if c == 13 else bytes([c])))
     annot = {
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': b'(' + content + b')',
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
-- 
2.43.0


From 729ce0c69959e032dfa2c99ff579b65b9498942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:02 +0000
Subject: [PATCH 070/114] fix: direct /Annots arrays

---
 pdfsyntax/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index f2a8b27..be5f7bd 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -258,7 +258,11 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         annot_obj = new_page['/Annots']
         new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else: #Direct array
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
-- 
2.43.0


From e7e55153b12dc9ff7e310bcff03e3f67bc17fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:03 +0000
Subject: [PATCH 071/114] fix: indirect page boxes and rotations

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index be5f7bd..5976b03 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
-- 
2.43.0


From 05dbb361e0ec551852ffd6c862c771f5f1876edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:15 +0000
Subject: [PATCH 072/114] fix: squashing a squashed document used the numbers
 from before

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index dded012..8ca3796 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -856,6 +856,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             nb += 1
             old_ref = complex(o['o_gen'], o['o_num'])
             new_o = deepcopy(o)
+            new_o['o_num'] = nb
             new_o['o_gen'] = 0
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
-- 
2.43.0


From 79e43407ef40b0a3d8813971dd43f7471cdeb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:15 +0000
Subject: [PATCH 073/114] fix: a cross-reference stream absent from its own
 index could not be read after loading

---
 pdfsyntax/docstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8ca3796..6defbf5 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -575,6 +575,10 @@ def commit(doc: Doc) -> Doc:
             new_doc.cache.append(None)
         if new_doc.index[-1][x_num] is None:
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
+            closing = current_index[0][-1] if type(current_index[0]) == list else current_index[0]
+            if 'xref_stream_pos' in closing: #Stream of the file, not indexed by itself
+                new_index_xs['abs_pos'] = closing['abs_pos']
+                new_index_xs['abs_next'] = closing['abs_next']
             new_doc.index[-1][x_num] = new_index_xs
         new_index0['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
-- 
2.43.0


From 8d4fa60bd5cb8292210dc4597f3dce91d27ebc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:12 +0000
Subject: [PATCH 074/114] fix: a reopened hybrid revision was written with
 entries for embedded objects in a table

---
 pdfsyntax/filestruct.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index d619270..4600b08 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -544,6 +544,11 @@ def build_revision_byte_stream(
     xref_table = []
     res = b''
     new_index = deepcopy(current_index)
+    if not xref_stream_num: #Tables cannot index objects embedded in object streams
+        for c, _ in changes:
+            new_index[int(c.imag)].pop('env_num', None)
+            new_index[int(c.imag)].pop('o_pos', None)
+        current_index = new_index
     counter = starting_pos + len(MARGIN)
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
-- 
2.43.0


From 492c357e5e1ff973d7aa9a9d30bf60f4c822a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:30 +0000
Subject: [PATCH 075/114] fix: /Index of a written cross-reference stream was
 not in ascending order

---
 pdfsyntax/filestruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 4600b08..844ef30 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -600,6 +600,7 @@ def build_revision_byte_stream(
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
+        xref_table.sort(key=lambda xr: xr[1])
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
         new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From da79dfbfb0fa4468963540510c363bed494dc763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:25 +0000
Subject: [PATCH 076/114] fix: the disassembler marks index entries by position
 only

---
 pdfsyntax/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..578895d 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -241,7 +241,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                  }
             lines.append(l)
             if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
+                wt = set(wrong_targets[pos])
             else:
                 wt = set()
             for x in content['table']:
@@ -258,7 +258,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if s == b'n' and ('DIR', x_num, x_gen, index) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'region_type': region_type.lower(),
                      'iref': iref, 'addr': addr, 'cl': cl, 'st': st
@@ -314,7 +314,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
         elif region_type == 'XREFSTREAM':
             trailer = content['trailer']
             if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
+                wt = set(wrong_targets[pos])
             else:
                 wt = set()
             for x in content['table']:
@@ -331,7 +331,11 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if env_num is None:
+                    k = ('DIR', x_num, x_gen, index)
+                else:
+                    k = ('EMB', x_num, env_num, index)
+                if s == b'n' and k in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'pos': pos,
                      'region_type': region_type.lower(), 'iref': iref,
-- 
2.43.0


From f4435821c97b900eec4ec4715ef8dc85808a690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:27 +0000
Subject: [PATCH 077/114] fix: the disassembler does not mark the embedded
 objects that are not indexed

---
 pdfsyntax/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 578895d..1b661c9 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, n) for t, n, e, _ in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(e, seq) for t, _, e, seq in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
-- 
2.43.0


From d08686e36509d4a04581490ac9fd1a8138a1e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:32 +0000
Subject: [PATCH 078/114] fix: comments between the tokens of indirect objects
 break their parsing

---
 pdfsyntax/docstruct.py  | 26 +++++++++++++-------------
 pdfsyntax/filestruct.py | 26 ++++++++++++--------------
 pdfsyntax/objects.py    | 30 ++++++++++++++++++------------
 3 files changed, 43 insertions(+), 39 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6defbf5..4492ab3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -238,13 +238,13 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         for index in indexes:
             bdata, a0, _, _ = fdata(index['abs_pos'],
                                     index['abs_next'] - index['abs_pos'])
-            i, j, _ = next_token(bdata, a0)
+            i, j, _ = next_lexeme(bdata, a0)
             if bdata[i:j] == b'trailer':
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_lexeme(bdata, j)
             else:
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_lexeme(bdata, j)
+                i, j, _ = next_lexeme(bdata, j)
+                i, j, _ = next_lexeme(bdata, j)
             text = bdata
             i_obj = parse_obj(text, i)
             if type(i_obj) == Stream:
@@ -254,10 +254,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     elif 'env_num' not in idx[rev][key]:
         bdata, a0, _, _ = fdata(idx[rev][key]['abs_pos'],
                                 idx[rev][key]['abs_next'] - idx[rev][key]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
+        i, j, _ = next_lexeme(bdata, a0)
+        i, j, _ = next_lexeme(bdata, j)
+        i, j, _ = next_lexeme(bdata, j)
+        i, j, _ = next_lexeme(bdata, j)
         text = bdata
         obj = parse_obj(text, i)
         if key == 0 and type(obj) == Stream:
@@ -267,10 +267,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         container = idx[rev][key]['env_num']
         bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
                                 idx[rev][container]['abs_next'] - idx[rev][container]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j) #/ObjStm
+        i, j, _ = next_lexeme(bdata, a0)
+        i, j, _ = next_lexeme(bdata, j)
+        i, j, _ = next_lexeme(bdata, j)
+        i, j, _ = next_lexeme(bdata, j) #/ObjStm
         text = bdata
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 844ef30..4165f31 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -262,7 +262,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             bdata, a0, o0, _ = fdata(-100, -1)
             eof_pos = o0 + bdata.rfind(EOF, a0)
             startxref_pos = o0 + bdata.rfind(STARTXREF, a0)
-            i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
+            i, j, _ = next_lexeme(bdata, startxref_pos + len(STARTXREF) - o0)
             xref_pos = int(bdata[i:j])
             last = startxref_pos
         elif xrefstm:
@@ -282,16 +282,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-            i, j, _ = next_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
-            i, j, _ = next_token(bdata, j)                            #dict
+            i, j, _ = next_lexeme(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
+            i, j, _ = next_lexeme(bdata, j)                            #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0) #o_num
+            i, j, _ = next_lexeme(bdata, a0) #o_num
             o_num = parse_obj(bdata, i)
-            i, j, _ = next_token(bdata, j)       #o_ver
-            i, j, _ = next_token(bdata, j)       #b'obj'
-            i, j, _ = next_token(bdata, j)       #dict
+            i, j, _ = next_lexeme(bdata, j)       #o_ver
+            i, j, _ = next_lexeme(bdata, j)       #b'obj'
+            i, j, _ = next_lexeme(bdata, j)       #dict
             xref = parse_obj(bdata, i)
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
@@ -617,13 +617,11 @@ def build_revision_byte_stream(
 
 def linearized(fdata: Callable) -> dict:
     """ """
-    HEADER = b'%PDF-X.Y'
-    bdata, a0, o0, _ = fdata(len(HEADER), 1024 - len(HEADER))
-    i, j, _ = next_token(bdata, a0) #comment
-    i, j, _ = next_token(bdata, j)  #o_num
-    i, j, _ = next_token(bdata, j)  #gen_num
-    i, j, _ = next_token(bdata, j)  #obj keyword
-    i, j, t = next_token(bdata, j)  #dict ?
+    bdata, a0, o0, _ = fdata(0, 1024)
+    i, j, _ = next_lexeme(bdata, a0) #o_num
+    i, j, _ = next_lexeme(bdata, j)  #gen_num
+    i, j, _ = next_lexeme(bdata, j)  #obj keyword
+    i, j, t = next_lexeme(bdata, j)  #dict ?
     if t == 'DICT':
         o = bdata[i:j]
         first_obj = parse_obj(o)
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 1fb8809..0c94986 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -173,6 +173,14 @@ def next_token(text: bytes, i=0) -> tuple:
     return (h, i, None)
 
 
+def next_lexeme(text: bytes, i=0) -> tuple:
+    """Find next token that is not a comment."""
+    h, j, t = next_token(text, i)
+    while t == 'COMMENT':
+        h, j, t = next_token(text, j)
+    return h, j, t
+
+
 def replace_ref(tokens: list) -> list:
     """Replace a sublist of X, Y, 'R' into a unique R namedtuple."""
     size = len(tokens)
@@ -222,12 +230,12 @@ def stream_span(text: bytes, start: int, entries: dict) -> tuple:
 
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
-    h1, j1, t1 = next_token(text, start)
+    h1, j1, t1 = next_lexeme(text, start)
     obj = text[h1:j1]
     if t1 == 'DICT':
         res = {}
         res_array = []
-        h2, j2, t2 = next_token(text, j1)
+        h2, j2, t2 = next_lexeme(text, j1)
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
@@ -300,8 +308,6 @@ def parse_obj(text: bytes, start=0) -> Any:
             return None
         s = obj[b:-e]
         return s
-    elif t1 == 'COMMENT':
-        return ''
     else:
         return dedicated_type(text[h1:j1], t1)
 
@@ -310,19 +316,19 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     """Recursively parse indirect object starting at X Y R."""
     bl, el = next_line(text, start)
     bo = bl
-    i1, j1, _ = next_token(text, start) #o_num
-    i2, j2, _ = next_token(text, j1) #o_gen
+    i1, j1, _ = next_lexeme(text, start) #o_num
+    i2, j2, _ = next_lexeme(text, j1) #o_gen
     o_num = int(text[i1:j1])
     o_gen = int(text[i2:j2])
-    i, j, _ = next_token(text, j2) #obj
-    i, j, _ = next_token(text, j) #object1
+    i, j, _ = next_lexeme(text, j2) #obj
+    i, j, _ = next_lexeme(text, j) #object1
     o = parse_obj(text, i)
-    i, j, t = next_token(text, j)
+    i, j, t = next_lexeme(text, j)
     if t == 'STREAM':
         span = stream_span(text, i, o['entries'])
         if span:
             j = span[2]
-        _, j, _ = next_token(text, j) #endobj
+        _, j, _ = next_lexeme(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
 
@@ -449,8 +455,8 @@ def parse_region(text: bytes, start=0) -> tuple:
         return (bl, j2, 'STARTXREF', text[i2:j2])
     elif typ == 'INTEGER':
         i1, j1, _ = next_token(text, bl)
-        i2, j2, _ = next_token(text, j1)
-        i3, j3, t = next_token(text, j2)
+        i2, j2, _ = next_lexeme(text, j1)
+        i3, j3, t = next_lexeme(text, j2)
         if t == 'KEYWORD' and text[i3:j3] == OBJ:
             ind_o = parse_indirect_obj(text, bl)
             return ind_o
-- 
2.43.0


From e0f699090e9f44f933f0ba07239d89996f9da308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:48 +0000
Subject: [PATCH 079/114] fix: trailer dictionary is missed by the file map
 when it follows its keyword on the same line

---
 pdfsyntax/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 0c94986..d252d73 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -377,7 +377,8 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
-    bl, bf, _l = next_token(bdata, el)
+    _, j, _ = next_lexeme(bdata, bl) #trailer keyword
+    bl, bf, _l = next_lexeme(bdata, j)
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
-- 
2.43.0


From c66c8c34c618fabaf4baa43f30863accee1baef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:01 +0000
Subject: [PATCH 080/114] fix: a dictionary in an array is not the start of a
 hexadecimal string

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index d252d73..cb553bf 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -167,6 +167,8 @@ def next_token(text: bytes, i=0) -> tuple:
                 nested += 1
             elif single == b']':
                 nested -= 1
+            elif double == b'<<': #Not the start of a hexadecimal string
+                i += 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
         i += 1
-- 
2.43.0


From a820fbb666c87e7b354e3b245ee6022ad6d4e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:23 +0000
Subject: [PATCH 081/114] fix: the #xx codes of names were not interpreted,
 names with other characters could not be read or written

---
 pdfsyntax/objects.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index cb553bf..6c05821 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -1,5 +1,6 @@
 """Module pdfsyntax.objects: Parser"""
 
+import re
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
@@ -198,6 +199,22 @@ def replace_ref(tokens: list) -> list:
     return new_list
 
 
+def decode_name(text: bytes) -> str:
+    """Replace each #xx of a name by the character of that code."""
+    return re.sub(rb'#([0-9A-Fa-f]{2})', lambda m: bytes.fromhex(m[1].decode('ascii')), text).decode('latin-1')
+
+
+def encode_name(name: str) -> bytes:
+    """Write as #xx each character of a name that is not regular and printable."""
+    ret = b'/'
+    for c in name[1:].encode('latin-1'):
+        if 0x21 <= c <= 0x7e and c not in DELIMITERS + b'#':
+            ret += bytes([c])
+        else:
+            ret += b'#%02X' % c
+    return ret
+
+
 def dedicated_type(text: bytes, type: str) -> Any:
     """Transform a PDF basic type into a Python basic type."""
     if type == 'INTEGER':
@@ -208,7 +225,9 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return True
     elif type == 'FALSE':
         return False
-    elif type == 'KEYWORD' or type == 'NAME':
+    elif type == 'NAME':
+        return decode_name(text)
+    elif type == 'KEYWORD':
         return text.decode('ascii')
     else:
         return text
@@ -482,6 +501,8 @@ def to_str(obj) -> bytes:
     elif type(obj) == float:
         #PDF has no exponential notation
         return format(Decimal(str(obj)), 'f').encode('ascii')
+    elif type(obj) == str and obj[:1] == '/':
+        return encode_name(obj)
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From 03124487bad43a377c21594eeece5545f85cb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:56 +0000
Subject: [PATCH 082/114] fix: a reference that is not inside an array or a
 dictionary was parsed as an integer

---
 pdfsyntax/objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6c05821..a350309 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -330,6 +330,11 @@ def parse_obj(text: bytes, start=0) -> Any:
         s = obj[b:-e]
         return s
     else:
+        if t1 == 'INTEGER':
+            h2, j2, t2 = next_lexeme(text, j1)
+            h3, j3, t3 = next_lexeme(text, j2)
+            if t2 == 'INTEGER' and t3 == 'KEYWORD' and text[h3:j3] == b'R':
+                return complex(int(text[h2:j2]), int(text[h1:j1]))
         return dedicated_type(text[h1:j1], t1)
 
 
@@ -344,6 +349,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     i, j, _ = next_lexeme(text, j2) #obj
     i, j, _ = next_lexeme(text, j) #object1
     o = parse_obj(text, i)
+    if type(o) == complex:
+        _, j, _ = next_lexeme(text, j) #generation
+        _, j, _ = next_lexeme(text, j) #R
     i, j, t = next_lexeme(text, j)
     if t == 'STREAM':
         span = stream_span(text, i, o['entries'])
-- 
2.43.0


From 181308642b76df1257a0d3129768877763a39f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:21 +0000
Subject: [PATCH 083/114] fix: a space after the xref keyword hid the
 cross-reference table

---
 pdfsyntax/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a350309..01fa953 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -392,7 +392,10 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
     XREF = b'xref'
     if bdata[start_pos:start_pos+len(XREF)] != XREF:
         return None
-    bl, el = next_line(bdata, start_pos+len(XREF))
+    bl = start_pos + len(XREF)
+    while bdata[bl:bl+1] == b' ': #White space at the end of the keyword line
+        bl += 1
+    bl, el = next_line(bdata, bl)
     bo = bl
     while b'0' <= bdata[bl:bl+1] <= b'9':
         items = bdata[bl:el].strip(b' ').split()
-- 
2.43.0


From 0b55eef4eebfc1847a0e9b070162e6fe8cc92c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:49 +0000
Subject: [PATCH 084/114] fix: incomplete ASCII85 data were decoded instead of
 being reported

---
 pdfsyntax/filters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 81b1a2b..e48fdfb 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -4,6 +4,7 @@ import zlib
 import binascii
 import base64
 
+A85_IGNORED = b' \t\n\r\x0b\x0c\x00'
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
 def paeth(a: int, b: int, c: int) -> int:
@@ -91,7 +92,9 @@ def decode_stream(stream, stream_def):
         elif f == '/ASCII85Decode':
             try:
                 res = res[:res.find(b'~>') + 2].lstrip()
-                res = base64.a85decode(res, adobe=True, ignorechars=b' \t\n\r\x0b\x0c\x00')
+                if len(res[:-2].translate(None, b'z' + A85_IGNORED)) % 5 == 1:
+                    raise ValueError('incomplete group')
+                res = base64.a85decode(res, adobe=True, ignorechars=A85_IGNORED)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
-- 
2.43.0


From d15423f3eaf3e1d5a39d03e030aa1b4d74268c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:50 +0000
Subject: [PATCH 085/114] fix: a null filter is no filter

---
 pdfsyntax/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index e48fdfb..2418dea 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -66,7 +66,7 @@ def filter_parms(stream_def: dict, nb: int) -> list:
 def decode_stream(stream, stream_def):
     """Apply all specified filters in order to decode stream."""
     s = stream
-    if '/Filter' not in stream_def:
+    if stream_def.get('/Filter') in (None, 'null'):
         return s
     filters = stream_def['/Filter']
     if type(filters) == str:
@@ -104,7 +104,7 @@ def decode_stream(stream, stream_def):
 
 def encode_stream(stream, stream_def):
     """Apply all specified filters in order to encode stream."""
-    if '/Filter' not in stream_def:
+    if stream_def.get('/Filter') in (None, 'null'):
         return stream
     filters = stream_def['/Filter']
     if type(filters) == str:
-- 
2.43.0


From a3d2707086f8cd159ed6688ba0238d72b25f2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:51 +0000
Subject: [PATCH 086/114] fix: Flate data with indirect parameters were decoded
 without prediction

---
 pdfsyntax/filters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 2418dea..64ee2f5 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -22,6 +22,8 @@ def predictor_row(parms: dict) -> tuple:
 
 def decode_predictor(bdata: bytes, parms: dict) -> bytes:
     """Undo PNG prediction, according to the tag at the beginning of each row."""
+    if type(parms) != dict: #Indirect reference
+        raise ValueError('unsupported parameters')
     predictor = int(parms.get('/Predictor', 1))
     if predictor == 1:
         return bdata
@@ -45,6 +47,8 @@ def decode_predictor(bdata: bytes, parms: dict) -> bytes:
 
 def encode_predictor(bdata: bytes, parms: dict) -> bytes:
     """Apply the simplest PNG prediction (None)."""
+    if type(parms) != dict: #Indirect reference
+        raise ValueError('unsupported parameters')
     predictor = int(parms.get('/Predictor', 1))
     if predictor == 1:
         return bdata
@@ -60,7 +64,7 @@ def filter_parms(stream_def: dict, nb: int) -> list:
     if type(parms) != list:
         parms = [parms]
     parms = parms[:nb] + [None] * (nb - len(parms))
-    return [p if type(p) == dict else {} for p in parms]
+    return [{} if p in (None, 'null') else p for p in parms]
 
 
 def decode_stream(stream, stream_def):
-- 
2.43.0


From 3f10b5fc830d7ce9d7574f346d9104b3e5425735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:38 +0000
Subject: [PATCH 087/114] fix: Flate data with an indirect array of parameters
 were decoded without prediction

---
 pdfsyntax/filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 64ee2f5..59f83b9 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -61,7 +61,9 @@ def encode_predictor(bdata: bytes, parms: dict) -> bytes:
 def filter_parms(stream_def: dict, nb: int) -> list:
     """List the parameters of each filter (an empty dict when missing)."""
     parms = stream_def.get('/DecodeParms')
-    if type(parms) != list:
+    if type(parms) == complex: #Indirect reference
+        parms = [parms] * nb
+    elif type(parms) != list:
         parms = [parms]
     parms = parms[:nb] + [None] * (nb - len(parms))
     return [{} if p in (None, 'null') else p for p in parms]
-- 
2.43.0


From 3dc69769129fa0f8a5078f728bc80d4b8d80e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:50 +0000
Subject: [PATCH 088/114] fix: a page attribute given as null is inherited

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4492ab3..4ef6b74 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -316,7 +316,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
         for kid in get_object(doc, node['/Kids']):
-            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
+            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) not in (None, 'null')}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited, max_nb)
             if max_nb is not None and len(accu) >= max_nb:
@@ -517,8 +517,10 @@ def pages(doc: Doc, max_nb=None) -> list:
     pl = []
     for num, in_attr in flat_page_tree(doc, max_nb=max_nb):
         temp = deepcopy(get_object(doc, num))
-        for a in in_attr:
-            if a not in temp:
+        for a in INHERITABLE_ATTRS:
+            if temp.get(a) == 'null': #Same as absent
+                del temp[a]
+            if a in in_attr and a not in temp:
                 temp[a] = in_attr[a]
         pl.append(temp)
     return pl
-- 
2.43.0


From 65b5762c0f25dac3170bc7ea5eca3f16d2fd35b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:50 +0000
Subject: [PATCH 089/114] fix: annotating a page whose list of annotations is
 null

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 5976b03..b4ab0be 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -254,7 +254,7 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
+    if new_page.get('/Annots', 'null') != 'null':
         annot_obj = new_page['/Annots']
         new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
-- 
2.43.0


From ccde5fe9f21bfa6e1c78ef486626b7cfd8c4169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:52:54 +0000
Subject: [PATCH 090/114] fix: white space in the strings of a ToUnicode map

---
 pdfsyntax/text.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 8639a88..bc5fc7b 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -111,15 +111,15 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
         if cmap[i] == 'beginbfchar':
             section = 'CHAR'
             if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
+                word_l = len(string_bytes(cmap[i+1]))
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
             i += 1
             continue
         if section == 'CHAR' and cmap[i] != 'endbfchar':
             for k, token in enumerate(tokens):
-                if token == int(cmap[i][1:-1], 16):
-                    tokens[k] = bytes.fromhex(cmap[i+1][1:-1].decode('ascii')).decode('utf-16be')
+                if token == int.from_bytes(string_bytes(cmap[i]), 'big'):
+                    tokens[k] = string_bytes(cmap[i+1]).decode('utf-16be')
             i += 2
             continue
         if section == 'CHAR' and cmap[i] == 'endbfchar':
@@ -129,21 +129,21 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
         if cmap[i] == 'beginbfrange':
             section = 'RANGE'
             if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
+                word_l = len(string_bytes(cmap[i+1]))
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
             i += 1
             continue
         if section == 'RANGE' and cmap[i] != 'endbfrange':
             for k, token in enumerate(tokens):
-                r_a = int(cmap[i][1:-1], 16)
-                r_z = int(cmap[i+1][1:-1], 16)
+                r_a = int.from_bytes(string_bytes(cmap[i]), 'big')
+                r_z = int.from_bytes(string_bytes(cmap[i+1]), 'big')
                 if type(token) == int and token >= r_a and token <= r_z:
                     target = cmap[i+2]
                     if type(target) == list:
                         target = cmap[i+2]
-                        temp = target[token - r_a][1:-1]
-                        tokens[k] = bytes.fromhex(temp.decode('ascii')).decode('utf-16be')
+                        temp = target[token - r_a]
+                        tokens[k] = string_bytes(temp).decode('utf-16be')
                     else:
                         target = string_bytes(cmap[i+2])
                         x = int.from_bytes(target, 'big') + (token - r_a)
-- 
2.43.0


From 2377d8e980b6cee425f4ddd4db1b5c7697faaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:55 +0000
Subject: [PATCH 091/114] fix: default type of the entries of a cross-reference
 stream

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 01fa953..96fa5ff 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -451,6 +451,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if cols[0] == 0: #Default type
+            params[0] = 1
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From 8acfe915757d0883b113a3597f67ae0da366ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:23:05 +0000
Subject: [PATCH 092/114] fix: empty subsections of a cross-reference stream

---
 pdfsyntax/objects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 96fa5ff..b9cf37e 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -423,9 +423,8 @@ def expand_xref_index(xref_index: list) -> list:
     while i < len(xref_index):
         o_num = xref_index[i]
         i += 1
-        res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
-            res.append((o_num+j+1, subsection))
+        for j in range(xref_index[i]): #Possibly none
+            res.append((o_num+j, subsection))
         i += 1
         subsection += 1
     return res
-- 
2.43.0


From 4bd77c9a9b2b4bb8db270187394d60622be7534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:30:09 +0000
Subject: [PATCH 093/114] fix: first command of a content stream was applied
 twice

---
 pdfsyntax/graphics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index ca7eadb..586e6e3 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -128,11 +128,8 @@ def parse_stream_content(content_stream: bytes) -> list:
             continue
         if type(tokens[i]) != str or tokens[i][0:1] == '/':
             current = [tokens[i]] + current
-            if i == 0 and current:
-                ret.insert(0, current)
             i -= 1
             continue
-            i -= 1
         i -= 1
     if current:
         ret.insert(0, current)
-- 
2.43.0


From 7f93a955ad26546537290f665d53981c3758d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:31:25 +0000
Subject: [PATCH 094/114] fix: character and word spacing apply to each shown
 character

---
 pdfsyntax/api.py  |  4 ++--
 pdfsyntax/text.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index b4ab0be..4fbb392 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -377,8 +377,8 @@ def build_text_fragments(page_contents: list, f: list):
         if te[-1] == 'TJ' or te[-1] == 'Tj':
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
-            uc, displacement = text_element_to_unicode(f[0], te, ts)
-            tx = (displacement * ts['Tfs'] + ts['Tc'] + ts['Tw']) * ts['Th'] / 100
+            uc, displacement, spacing = text_element_to_unicode(f[0], te, ts)
+            tx = (displacement * ts['Tfs'] + spacing) * ts['Th'] / 100
             ty = 0 #TODO
             ts['tm'] = multiply_matrices([1, 0, 0, 1, tx, ty], ts['tm'])
             new_trm = trm(ts, gs)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index bc5fc7b..12036ea 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -166,17 +166,26 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
     return ''.join(tokens), tokens_backup
 
 
+def char_spacing(font: dict, char: int, ts: dict) -> float:
+    """Return character spacing, with word spacing for the single byte code 32."""
+    if char == 32 and font['type'] != '/Type0':
+        return ts['Tc'] + ts['Tw']
+    return ts['Tc']
+
+
 def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
     """ """
     font = ts['Tf']
     ustring = ''
     width = 0
+    spacing = 0
     if element[-1] == 'Tj':
             t = element[-2]
             us, chars = fonts[font]['dec_fun'](t)
             ustring += us
             for c in chars:
                 width += fonts[font]['char_width'](c) / 1000
+                spacing += char_spacing(fonts[font], c, ts)
     elif element[-1] == 'TJ':
         for t in element[-2]:
             if type(t) == bytes:
@@ -184,6 +193,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 ustring += us
                 for c in chars:
                     width += fonts[font]['char_width'](c) / 1000
+                    spacing += char_spacing(fonts[font], c, ts)
             else:
                 width -= t/1000
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
@@ -191,4 +201,4 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 if space_char_width >= 1 and t <= -space_char_width:
                     nb_char = int(-t) // int(space_char_width)
                     ustring += ' ' * nb_char
-    return ustring, width
+    return ustring, width, spacing
-- 
2.43.0


From e9e379d8926d63f6ec4c698e2373d8e112fdd012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:43 +0000
Subject: [PATCH 095/114] fix: text made of single characters could not be
 extracted

---
 pdfsyntax/layout.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..1deac02 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -123,15 +123,15 @@ def typical_line_spacing(text_blocks: list, typical_font_size: float) -> float:
 
 def typical_char_width(text_blocks: list, typical_font_size: float) -> float:
     """ """
-    distrib = []
-    for i in text_blocks:
-        if i['scaling'] != typical_font_size or len(i['text']) < 2:
-            continue
-        distrib.append(i['width'] / len(i['text']))
-    if len(distrib):
-        return sum(distrib) / len(distrib)
-    else:
-        return 0
+    for min_len in [2, 1]:
+        distrib = []
+        for i in text_blocks:
+            if i['scaling'] != typical_font_size or len(i['text']) < min_len:
+                continue
+            distrib.append(i['width'] / len(i['text']))
+        if sum(distrib) > 0:
+            return sum(distrib) / len(distrib)
+    return typical_font_size / 2
 
 
 def print_debug(text_blocks: list):
-- 
2.43.0


From 6b1afc7b3790830531cde3392d0ef583762d67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:44 +0000
Subject: [PATCH 096/114] fix: pages of rotated text, or without any character,
 could not be extracted

---
 pdfsyntax/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 1deac02..9e751be 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -1,5 +1,7 @@
 """Module pdfsyntax.layout: from spatial representation to text file"""
 
+import math
+
 
 MIN_SEP_DISTANCE = 5
 NEWLINE_COEFF = 3
@@ -56,7 +58,7 @@ def simplify_horizontal_text_elements(text_blocks: list):
         x = old_trm[4]
         y = old_trm[5]
         width = new_trm[4] - old_trm[4]
-        scaling = old_trm[0]
+        scaling = round(math.hypot(old_trm[2], old_trm[3]), 3) #Height of font, even when text is rotated
         text_blocks[i] = {'x': x, 'y': y,'width': width,'scaling': scaling,'text': uc}
     return
 
@@ -81,7 +83,7 @@ def typical_font_size(text_blocks: list) -> float:
         if scaling not in distrib:
             distrib[scaling] = 0
         distrib[scaling] += nb_char
-    return most_frequent(distrib)
+    return most_frequent(distrib) or 1
 
 
 def minimum_x(text_blocks: list) -> float:
-- 
2.43.0


From a1086b92ab56e3e9925aeea9ace12eb68ae7db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:55 +0000
Subject: [PATCH 097/114] fix: strings far apart were joined when coordinates
 are not integers or text is small

---
 pdfsyntax/layout.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 9e751be..e8c37d5 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -35,15 +35,15 @@ def basic_spatial_layout(text_blocks: list) -> str:
             #print(line_items[-1])
         line_items.sort(key=lambda tb: tb['x'])
         #TODO exclude overlapping blocks
-        nb_spaces = (int(line_items[0]['x']) - min_x) // char_w
-        line_string += ' ' * int(nb_spaces)
+        nb_spaces = round((line_items[0]['x'] - min_x) / char_w)
+        line_string += ' ' * nb_spaces
         line_string += line_items[0]['text']
         i = 1
         while i < len(line_items):
             if line_items[i]['x'] > line_items[i-1]['x'] + line_items[i-1]['width'] + MIN_SEP_DISTANCE:
-                nb_spaces = (int(line_items[i]['x']) - min_x) // char_w
+                nb_spaces = round((line_items[i]['x'] - min_x) / char_w)
                 offset = len(line_string)
-                line_string += ' ' * (int(nb_spaces) - offset)
+                line_string += ' ' * max(1, nb_spaces - offset)
             line_string += line_items[i]['text']
             i += 1
         if line_string != ' ':
-- 
2.43.0


From 2525259a444513e0d29f679318b7810d12b4eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:48:17 +0000
Subject: [PATCH 098/114] fix: left margin of a page where a text starts at
 abscissa -1

---
 pdfsyntax/layout.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index e8c37d5..b08f58f 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -88,11 +88,7 @@ def typical_font_size(text_blocks: list) -> float:
 
 def minimum_x(text_blocks: list) -> float:
     """Find the minimum x coordinate of all text blocks."""
-    min_x = -1
-    for tb in text_blocks:
-        if min_x == -1 or tb['x'] < min_x:
-           min_x = tb['x']
-    return min_x
+    return min([tb['x'] for tb in text_blocks], default=0)
 
 
 def typical_line_spacing(text_blocks: list, typical_font_size: float) -> float:
-- 
2.43.0


From 86d9becbd20d216a8f124ae5da6db6c15a90c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:48:17 +0000
Subject: [PATCH 099/114] fix: lines closer than the typical spacing of the
 page were mixed up

---
 pdfsyntax/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index b08f58f..7b2b501 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -29,7 +29,9 @@ def basic_spatial_layout(text_blocks: list) -> str:
         #print("-----------------------------------")
         #print(line_items[0])
         while text_blocks:
-            if abs(target_y - text_blocks[0]['y']) > spacing * 0.9:
+            #Lines may be closer than the typical spacing, but not than their own font size
+            min_spacing = min(spacing, line_items[0]['scaling'], text_blocks[0]['scaling'])
+            if abs(target_y - text_blocks[0]['y']) > min_spacing * 0.9:
                 break
             line_items.append(text_blocks.pop(0))
             #print(line_items[-1])
-- 
2.43.0


From cd8545be11a8e04bbf894465fd8848637a217b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:21 +0000
Subject: [PATCH 100/114] fix: an empty string in a line split the text that
 covers it

---
 pdfsyntax/layout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 7b2b501..6e5dddf 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -10,6 +10,7 @@ NEWLINE_COEFF = 3
 def basic_spatial_layout(text_blocks: list) -> str:
     """Extract text."""
     res = ''
+    text_blocks = [tb for tb in text_blocks if tb['text']]
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-- 
2.43.0


From 945ca4ed27f77d2f906188adb448dfa2e93a3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:53 +0000
Subject: [PATCH 101/114] fix: windows that start out of the data wrapped
 around

---
 pdfsyntax/docstruct.py  |  6 +-----
 pdfsyntax/filestruct.py | 29 +++++++++++++++--------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4ef6b74..7dd9648 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -546,11 +546,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
         size = index + len(bdata)
         if start_pos == None and length == -1:
             return (None, None, None, size)
-        start = (start_pos + size) % size
-        if length == -1:
-            nb_read = size - start
-        else:
-            nb_read = min(size - start, length)
+        start, nb_read = window(start_pos, length, size)
         if start >= index:
             return (bdata, start - index, index, nb_read)
         buf, i, offset, n = fdata(start, min(nb_read, index - start))
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 4165f31..61fd122 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -11,6 +11,17 @@ from .filters import *
 MARGIN = b'\n'
 
 
+def window(start_pos: int, length: int, size: int) -> tuple:
+    """Return the absolute position and the number of readable bytes of a window."""
+    if start_pos < 0:
+        i = max(start_pos + size, 0)
+    else:
+        i = min(start_pos, size)
+    if length == -1:
+        return (i, size - i)
+    return (i, min(size - i, length))
+
+
 def bdata_provider(data_source, mode: str = "SINGLE"):
     """Build - with a higher order function - an interface to binary data.
     
@@ -31,11 +42,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % (len(bdata) or 1)
-            if length == -1:
-                nb_read = len(bdata) - i
-            else:
-                nb_read = min(len(bdata) - i, length)
+            i, nb_read = window(start_pos, length, len(bdata))
             return (bdata, i, 0, nb_read)
         return single_load
     else:
@@ -45,11 +52,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % (file_size or 1)
-            if length == -1:
-                nb_read = file_size - i
-            else:
-                nb_read = min(file_size - i, length)
+            i, nb_read = window(start_pos, length, file_size)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
             return (bdata, 0, i, nb_read)
@@ -61,10 +64,8 @@ def bdata_dummy(bdata: bytes):
     def dummy_load(start_pos: int, length: int) -> tuple:
         if start_pos is None and length == -1:
             return (None, None, None, len(bdata))
-        i = (start_pos + len(bdata)) % (len(bdata) or 1)
-        if length == -1:
-            length = len(bdata) - i
-        return (bdata, i, 0, min(len(bdata) - i, length))
+        i, nb_read = window(start_pos, length, len(bdata))
+        return (bdata, i, 0, nb_read)
     return dummy_load
 
 
-- 
2.43.0


From 21e856e8286a2141a166248f81d56d4d88a25053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:08 +0000
Subject: [PATCH 102/114] fix: hexadecimal dump showed bytes after the end of
 its range

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 61fd122..3460591 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -90,12 +90,12 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
         start = 0
     if stop is None or stop > sz:
         stop = sz
-    length = stop - start
+    length = max(stop - start, 0)
     idx = (start // LN) * LN
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i-i0:i-i0+LN]
+        l = buf[i-i0:min(i-i0+LN, d0+sz0)]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
-- 
2.43.0


From 70e5d90e8888f60064cd31c2d164f6e61ee20ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:33:10 +0000
Subject: [PATCH 103/114] fix: the view failed on deleted objects, missing
 references and objects out of the index

---
 pdfsyntax/api.py     | 37 ++++++++++++++++++-------------
 pdfsyntax/display.py | 53 +++++++++++++++++++++++++++-----------------
 2 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 4fbb392..fe81cf0 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -415,20 +415,12 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
 def find_xref_table_pos_in_index(xref_table_pos, index):
     """."""
     found = None
-    obj = index[0][0]
-    if type(obj) == dict:
-        obj_list = [obj]
-    else:
-        obj_list = obj
-    for o in obj_list:
-        if o.get('xref_table_pos') == xref_table_pos:
-            found = (0, 0)
-    for ver in range(1, len(index)):
+    for ver in range(len(index)):
         obj = index[ver][0]
-        if obj is None:
-            continue
-        if obj.get('xref_table_pos') == xref_table_pos:
-            found = (0, ver)
+        obj_list = obj if type(obj) == list else [obj]
+        for o in obj_list:
+            if o is not None and o.get('xref_table_pos') == xref_table_pos:
+                found = (0, ver)
     return found
 
 
@@ -450,6 +442,18 @@ def find_abs_pos_in_index(abs_pos, index):
     return found
 
 
+def position_of(iref, current, cross):
+    """Return the position of the object named by a reference in a revision, None if there is no such object."""
+    o_num = int(iref.imag)
+    entry = current[o_num] if 0 < o_num < len(current) else None
+    if entry is None or entry['o_gen'] != int(iref.real):
+        return None
+    abs_pos = entry.get('abs_pos')
+    if abs_pos not in cross or cross[abs_pos][0] != o_num:
+        return None
+    return abs_pos
+
+
 def cross_map_index(sections, index):
     """."""
     ret = {}
@@ -469,12 +473,15 @@ def cross_map_index(sections, index):
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
+        if relevance is None:
+            continue
         _, ver = relevance
         if ver < len(index) - 1:
             continue
         for target in targets:
-            target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
+            target_pos = position_of(target, index[-1], ret)
+            if target_pos is None:
+                continue
             _, _, _, target_used_by = ret[target_pos]
             target_used_by.append((o_num, abs_pos))
     return ret
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..4d3f8e3 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -4,7 +4,7 @@ import os
 import html
 from .objects import Stream
 from .graphics import printable_stream_content
-from .api import bool2yesno
+from .api import bool2yesno, position_of
 
 
 NAME_MAX_WIDTH = 20
@@ -204,6 +204,15 @@ TRUNCATED = '<em> ...(truncated) </em>'
 
 
 
+def version_of(abs_pos, cross: dict) -> int:
+    """Return the revision in which an object is to be read: the last one where it is in effect."""
+    _, relevance, _, _ = cross[abs_pos]
+    if relevance is None:
+        return -1
+    _, ver = relevance
+    return ver
+
+
 def build_html(articles: list, index: list, cross: dict, filename: str, pages: list, structure: dict, file_size: int) -> str:
     """Compose the page layout."""
     page = HEADER
@@ -218,20 +227,20 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
                 page += add_comment(article)
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
-            _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            ver = version_of(abs_pos, cross)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
-                page += follow_obj(o, index[ver], display_stream=False)
+                page += follow_obj(o, index[ver], cross, display_stream=False)
             else:
-                page += follow_obj(o, index[ver], display_stream=True)
+                page += follow_obj(o, index[ver], cross, display_stream=True)
                 page += '\n\nendobj'
                 page += build_obj_trailer()
         elif typ == 'XREFTABLE':
             page += build_obj_header(article, index, cross)
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
-            page += follow_obj(content['trailer'], index[ver])
+            ver = version_of(abs_pos, cross)
+            page += follow_obj(content['trailer'], index[ver], cross)
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
             page += build_xref_stream(content['table'], index)
@@ -240,7 +249,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
     page += build_header(filename)
     page += build_nav_begin()
     page += build_nav_info(structure, file_size)
-    page += build_nav_pages(pages, index)
+    page += build_nav_pages(pages, index, cross)
     page += build_nav_objects(articles)
     page += build_nav_quick()
     page += build_nav_end()
@@ -248,7 +257,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
     return page
 
 
-def build_nav_pages(pages, index) -> str:
+def build_nav_pages(pages, index, cross) -> str:
     """."""
     ret = '\n'
     ret += f'<details class="b3">\n'
@@ -256,10 +265,9 @@ def build_nav_pages(pages, index) -> str:
     ret += f'<p class="nav-y b2">\n'
     for i, page in enumerate(pages):
         iref, _ = page
-        o_num = int(iref.imag)
-        o_gen = int(iref.real)
-        o_ver = index[-1][o_num]['o_ver']
-        ret += f' <a class="nav-idx" href="#obj{o_num}.{o_gen}.{o_ver}">{i+1}</a>'
+        abs_pos = position_of(iref, index[-1], cross)
+        if abs_pos is not None:
+            ret += f' <a class="nav-idx" href="#idx{abs_pos}">{i+1}</a>'
     ret += f'</p>\n'
     ret += f'</details>\n'
     ret += '\n'
@@ -473,14 +481,16 @@ def move_list_item(mod_list: list, item: int, new_pos: int) -> str:
     return mod_list
 
 
-def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
+def follow_obj(obj, index: list, cross: dict, depth=0, display_stream=True) -> str:
     """Recursively construct object representation."""
     ret = ''
     content = None
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
+        abs_pos = position_of(obj, index, cross)
+        if abs_pos is None:
+            return f'{o_num} {o_gen} R'
         ret += f'<a href="#idx{abs_pos}">'
         ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
         ret += '</a>'
@@ -495,7 +505,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
             name = i #name = i.decode('ascii')
-            value = follow_obj(obj[i], index, depth + 1)
+            value = follow_obj(obj[i], index, cross, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
                 ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
@@ -523,7 +533,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     elif type(obj) == list:
         ret += '[ '
         for i in obj:
-            value = follow_obj(i, index)
+            value = follow_obj(i, index, cross)
             ret += f'{value} '
         if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
             ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
@@ -573,12 +583,15 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<pre>\n'
     elif type(pos) == int:
         _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        o_num, o_gen = obj['o_num'], obj['o_gen']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        if relevance is None:
+            ret += f'<div>\n'
+        else:
+            _, ver = relevance
+            o_ver = index[ver][o_num]['o_ver']
+            ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
         ret += f'<pre>\n'
         ret += f'<span class="c1">{pos:010d}</span>'
         ret += f'<span class="obj-header b0"><strong>{o_num}</strong> '
-- 
2.43.0


From b796f1c29ffeeb421885d6081140adf5eaacb532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:33:35 +0000
Subject: [PATCH 104/114] fix: anchors of embedded objects were not unique in
 the view

---
 pdfsyntax/api.py        | 12 ++++++++++++
 pdfsyntax/display.py    | 42 ++++++++++++++++++++---------------------
 pdfsyntax/filestruct.py |  2 +-
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index fe81cf0..25904fa 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -424,6 +424,18 @@ def find_xref_table_pos_in_index(xref_table_pos, index):
     return found
 
 
+def find_xref_stream_pos_in_index(xref_stream_pos, index):
+    """."""
+    found = None
+    for ver in range(len(index)):
+        obj = index[ver][0]
+        obj_list = obj if type(obj) == list else [obj]
+        for o in obj_list:
+            if o is not None and xref_stream_pos in (o.get('xref_stream_pos'), o.get('xref_stm')):
+                found = (0, ver)
+    return found
+
+
 def find_abs_pos_in_index(abs_pos, index):
     """."""
     found = None
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 4d3f8e3..c5cb6a3 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -4,7 +4,7 @@ import os
 import html
 from .objects import Stream
 from .graphics import printable_stream_content
-from .api import bool2yesno, position_of
+from .api import bool2yesno, position_of, find_xref_stream_pos_in_index
 
 
 NAME_MAX_WIDTH = 20
@@ -237,13 +237,13 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
                 page += build_obj_trailer()
         elif typ == 'XREFTABLE':
             page += build_obj_header(article, index, cross)
-            page += build_xref_table(content['table'], index)
+            page += build_xref_table(content['table'], index, cross)
             page += "\ntrailer\n"
             ver = version_of(abs_pos, cross)
             page += follow_obj(content['trailer'], index[ver], cross)
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
-            page += build_xref_stream(content['table'], index)
+            page += build_xref_stream(content['table'], index, cross, abs_pos)
             page += '\n\nendobj'
             page += build_obj_trailer()
     page += build_header(filename)
@@ -427,7 +427,7 @@ def add_eof(article: dict) -> str:
     return ret
 
 
-def build_xref_table(table: list, index: list) -> str:
+def build_xref_table(table: list, index: list, cross: dict) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
     for x in table:
@@ -438,7 +438,7 @@ def build_xref_table(table: list, index: list) -> str:
             _, _, _, y = x
             _, pos, o_num, o_gen, st = y
             ret += f'{pos:010} {o_gen:05} {st.decode("ascii")}'
-            if st != b'f':
+            if st != b'f' and pos in cross:
                 ret += '    '
                 ret += f'<a href="#idx{pos}">'
                 ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
@@ -447,22 +447,25 @@ def build_xref_table(table: list, index: list) -> str:
     return ret
 
 
-def build_xref_stream(table: list, index: list) -> str:
+def build_xref_stream(table: list, index: list, cross: dict, xref_stream_pos: int) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
+    relevance = find_xref_stream_pos_in_index(xref_stream_pos, index)
+    current = index[relevance[1]] if relevance else index[-1]
     ret += '\nstream\n\n'
     for x in table:
         _, _, _, y = x
         _, pos, o_num, o_gen, st, env_num, raw_line = y
         if o_num != 0:
+            abs_pos = pos
             if env_num:
-                #abs_pos = envs[env_num] + (pos + 1) / 10000
-                #ret += f'<a href="#idx{abs_pos}">'
-                ret += f'<a href="#obj{o_num}.{o_gen}.0">'
-            else:
-                ret += f'<a href="#idx{pos}">'
-            ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
-            ret += '</a>'
+                abs_pos = None
+                if env_num < len(current) and current[env_num] is not None and 'abs_pos' in current[env_num]:
+                    abs_pos = current[env_num]['abs_pos'] + (pos + 1) / 10000
+            label = f'<span class="obj-link">#{o_num} {o_gen}</span>'
+            if st != b'f' and abs_pos in cross:
+                label = f'<a href="#idx{abs_pos}">{label}</a>'
+            ret += label
             ret += '    '
             if env_num:
                 ret += f'In object stream {env_num} at {pos:010} {st.decode("ascii")}\n'
@@ -582,16 +585,11 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<div>\n'
         ret += f'<pre>\n'
     elif type(pos) == int:
-        _, relevance, _, used_by = cross[pos]
+        _, _, _, used_by = cross[pos]
         o_num, o_gen = obj['o_num'], obj['o_gen']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        if relevance is None:
-            ret += f'<div>\n'
-        else:
-            _, ver = relevance
-            o_ver = index[ver][o_num]['o_ver']
-            ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += f'<div>\n'
         ret += f'<pre>\n'
         ret += f'<span class="c1">{pos:010d}</span>'
         ret += f'<span class="obj-header b0"><strong>{o_num}</strong> '
@@ -606,11 +604,11 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
+        o_num, o_gen = obj['o_num'], 0
         _, _, _, used_by = cross[pos]
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += f'<div>\n'
         ret += f'<pre>\n'
         embedded = f'{obj["env_num"]} #{seq}'
         ret += f'<span class="c1">{embedded:10}</span>'
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 3460591..74f04c7 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -302,8 +302,8 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         seq += [(i.get('abs_pos'), i.get('o_num')) for i in xref_index if 'abs_pos' in i and 'env_num' not in i]
         if xrefstm == False and prev == False:
             if '/XRefStm' in trailer:
-                xref_index[0]['xref_stm'] = True
                 xrefstm = int(trailer['/XRefStm'])
+                xref_index[0]['xref_stm'] = xrefstm
             if '/Prev' in trailer:
                 prev = int(trailer['/Prev'])
     idx = sorted([i[0] for i in seq])
-- 
2.43.0


From 4610e715b306da2391ec2d7576e53e71ebe9a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:33:36 +0000
Subject: [PATCH 105/114] fix: links of the view to positions that hold nothing

---
 pdfsyntax/display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index c5cb6a3..f02edf5 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -191,7 +191,7 @@ HEADER = '''<!DOCTYPE html>
     </style>
 </head>
 <body class="b1 c0">
-<div class="content">
+<div id="begin" class="content">
 '''
 
 TRAILER = '''
@@ -314,7 +314,7 @@ def build_nav_quick() -> str:
     ret += '<summary class="title b3"><code> Quick access</code></summary>\n'
     ret += '<pre class="b2">\n'
     ret += '<ul>\n'
-    ret += '<li>&UpArrowBar; <a class="header-button" href="#idx0">Beginning</a></li>\n'
+    ret += '<li>&UpArrowBar; <a class="header-button" href="#begin">Beginning</a></li>\n'
     ret += '<li>&DownArrowBar; <a class="header-button" href="#end">End of file</a></li>\n'
     ret += '</ul>'
     ret += '</pre>\n'
@@ -385,7 +385,7 @@ def add_startxref(article: dict, index: list, cross) -> str:
     ret += f'<pre>\n'
     ret += f'<span class="c1">{pos:010d}</span><span class="obj-header b0">startxref</span>\n'
     ret += f'<div class="obj-body b0">\n'
-    if xref == 0:
+    if int(xref) == 0:
         ret += f'0\n'
     else:
         ret += f'<a class="obj-link" href="#{href}">{int(xref)}</a>\n'
@@ -516,7 +516,7 @@ def follow_obj(obj, index: list, cross: dict, depth=0, display_stream=True) -> s
                 ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
+            elif name == '/Prev' and type(obj[i]) == int and obj[i] in cross:
                 ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
-- 
2.43.0


From 9a2aff00c45e2fbfd364fc5b264011f4bb78ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:33:38 +0000
Subject: [PATCH 106/114] fix: content of the file was taken for markup in the
 view

---
 pdfsyntax/display.py  | 23 ++++++++++++-----------
 pdfsyntax/graphics.py |  1 +
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index f02edf5..a0b73aa 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -298,7 +298,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {html.escape(str(t))}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
@@ -338,7 +338,7 @@ def build_nav_info(structure, file_size) -> str:
     attrs.append(f'{"Linearized: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}')
     attrs.append(f'{"File size: ":{INFO_MAX_WIDTH}}{file_size} bytes')
     for x in attrs:
-        ret += f' <li class="">{x}</li>'
+        ret += f' <li class="">{html.escape(x)}</li>'
     ret += '</ul>\n'
     ret += '</pre>\n'
     ret += '</details>\n'
@@ -367,7 +367,7 @@ def build_header(filename: str) -> str:
     ret = ''
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{html.escape(os.path.basename(filename))} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
@@ -398,7 +398,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -508,18 +508,19 @@ def follow_obj(obj, index: list, cross: dict, depth=0, display_stream=True) -> s
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
             name = i #name = i.decode('ascii')
+            label = html.escape(f'{name:{NAME_MAX_WIDTH}}')
             value = follow_obj(obj[i], index, cross, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
+                ret += f'  {label}<span class="important">{value}</span>\n'
             elif name == '/JS':
-                ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
+                ret += f'  <span class="warning">{label}</span>{value}\n'
             elif value == '/JavaScript':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
+                ret += f'  {label}<span class="warning">{value}</span>\n'
             elif name == '/Prev' and type(obj[i]) == int and obj[i] in cross:
-                ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
+                ret += f'  {label}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
-                ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
+                ret += f'  {label}{value}\n'
         ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
         ret += '&gt;&gt;'
         if content and display_stream:
@@ -538,8 +539,8 @@ def follow_obj(obj, index: list, cross: dict, depth=0, display_stream=True) -> s
         for i in obj:
             value = follow_obj(i, index, cross)
             ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
-            ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
+        if len(ret) > VALUE_MAX_WIDTH and '<' not in ret: #Markup is kept whole
+            ret = html.escape(html.unescape(ret)[:VALUE_MAX_WIDTH]) + TRUNCATED
         ret += ']'        
     else:
         comment = False
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 586e6e3..68115ec 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -145,6 +145,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
+        ret = ret.replace('&', '&amp;')
         ret = ret.replace('<', '&lt;')
         ret = ret.replace('>', '&gt;')
     return ret
-- 
2.43.0


From 83c4f60f2bacb5d8689cc9b4ecde565d29cf49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:27 +0000
Subject: [PATCH 107/114] fix: Markdown lines were lost after lists, tables and
 indented code, and at the end

---
 pdfsyntax/markdown.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index aba1991..11c0b27 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -114,9 +114,10 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
         indent, bs = indentation_and_first_token(ln)
         ln += '\n'
         if mode == 'indented':
-            if indent == 4:
+            if indent >= 4:
                 res.append(ln)
             else:
+                i -= 1 #Line of the next block
                 break
         elif mode == 'fenced':
             if ln[:3] == "```":
@@ -169,7 +170,7 @@ def parse_list(lines: list, start_pos = 0, mode = 'unordered'):
             break
         res.append(('LI' ,[ln[indent+len(bs)+1:]]))
         i += 1
-    return (typ, i, res)
+    return (typ, i - 1, res)
 
 
 def parse_table(lines: list, start_pos = 0):
@@ -196,7 +197,7 @@ def parse_table(lines: list, start_pos = 0):
                 tbody.append(('TR' ,row))
         i += 1
     res.append(('TBODY', tbody))
-    return ('TABLE', i, res)
+    return ('TABLE', i - 1, res)
 
 
 def flush_p(blocks: list, b: list):
@@ -220,9 +221,12 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
         if indent + 1 < start_indent:
             flush_p(blocks, b)
             return blocks, i
+        elif not ln.strip():
+            flush_p(blocks, b)
         elif not bs and indent > 0 and indent + 1 > start_indent:
             flush_p(blocks, b)
             sub, i = parse_markdown(lines, i, indent + 1)
+            i -= 1
             blocks.append(('BLOCKQUOTE', sub))
         elif bs[:3] == "```":
             flush_p(blocks, b)
@@ -252,13 +256,12 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_table(lines, i)
             blocks.append((typ, res))
-        elif b and not ln:
-            flush_p(blocks, b)
         else:
             b.append(line[indent:])
             if ln_break:
                 b.append("<br>")
         i += 1
+    flush_p(blocks, b)
     return blocks, i
 
 
-- 
2.43.0


From 8b44a5e3e8f1eded4d77fa666220df92480c6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:28 +0000
Subject: [PATCH 108/114] fix: words of consecutive Markdown lines were joined,
 and lines of an underlined heading lost

---
 pdfsyntax/markdown.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 11c0b27..33daff5 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -203,7 +203,7 @@ def parse_table(lines: list, start_pos = 0):
 def flush_p(blocks: list, b: list):
     """Flush paragraph into blocks buffer."""
     if b:
-        blocks.append(('P', [''.join(b)]))
+        blocks.append(('P', ['\n'.join(b)]))
         b.clear()
     return
 
@@ -236,9 +236,9 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i, 'indented')
             blocks.append((typ, res))
-        elif ln and (ln == '=' * len(ln) or ln == '-' * len(ln)):
+        elif b and ln and (ln == '=' * len(ln) or ln == '-' * len(ln)):
             typ, i, res = parse_title(lines, i-1, 'underlined')
-            blocks.append((typ, res))
+            blocks.append((typ, ['\n'.join(b)]))
             b = []
         elif bs and bs == '#' * len(bs):
             flush_p(blocks, b)
-- 
2.43.0


From e75b1b06216cb54ee25ad6714dbcfc6b9b2b282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:30 +0000
Subject: [PATCH 109/114] fix: code was not shown literally in rendered
 Markdown

---
 pdfsyntax/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 33daff5..ae7be97 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -77,7 +77,7 @@ def style(string: str) -> str:
         else:
             if search == '`':
                 if c == '`':
-                    res += f"<code>{string[current+1:i]}</code>"
+                    res += f"<code>{entities(string[current+1:i])}</code>"
                     current = i+1
                     search = 'TBD'
             elif accu:
@@ -272,6 +272,7 @@ def tags(string: str) -> str:
 
 def entities(string: str) -> str:
     """Turn special chars into HTML entities."""
+    string = string.replace('&', '&amp;')
     string = string.replace('<', '&lt;')
     string = string.replace('>', '&gt;')
     return string
-- 
2.43.0


From a8d2df50ee17b0fe48bb86d542b9a214d1fcf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:31 +0000
Subject: [PATCH 110/114] fix: rows of Markdown tables that start with dashes
 were dropped

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index ae7be97..63f8aa9 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -193,7 +193,7 @@ def parse_table(lines: list, start_pos = 0):
             res.append(('THEAD', [('TR', row)]))
         else:
             row = [('TD', [td]) for td in ln[indent:].split('|')[1:-1]]
-            if row[0][1][0][1:3] != '--':
+            if i != start_pos + 1 or ln.strip('|-: \t'):
                 tbody.append(('TR' ,row))
         i += 1
     res.append(('TBODY', tbody))
-- 
2.43.0


From 191adb4bb6d069bcd4bd1f7bd3e44747bd831d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:10:44 +0000
Subject: [PATCH 111/114] fix: emphasis after a first one was not recognised in
 Markdown

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 63f8aa9..f4b3713 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -95,8 +95,8 @@ def style(string: str) -> str:
                     elif len(search) == 3:
                         res +=  f"<em><strong>{text}</strong></em>"
                     current = i+len(search)
-                    search = 'TBD'
                     i += (len(search)-1)
+                    search = 'TBD'
             else:
                 accu = False
         i += 1
-- 
2.43.0


From e7ee4d37c0f8b519cc09ac8966e46b7269eabba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:11:02 +0000
Subject: [PATCH 112/114] fix: emphasis with underscores at the start of a
 Markdown line was not recognised

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index f4b3713..d79d646 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -69,7 +69,7 @@ def style(string: str) -> str:
                 search = c
                 res += string[current:i]
                 current = i
-            if c == '*' or (p in ' [>' and c == '_'):
+            if c == '*' or (p in ' \n[>' and c == '_'):
                 accu = True
                 search = c
                 res += string[current:i]
-- 
2.43.0


From 6dd8d73b3b468ac6eacb23032664c917bfb3e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:11:04 +0000
Subject: [PATCH 113/114] fix: text of Markdown images was cut at its first
 apostrophe

---
 pdfsyntax/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index d79d646..dcc002c 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -39,7 +39,8 @@ def link(string: str) -> str:
         if string[b1-2] == '!':
             j = p2
             res += string[i:b1-2]
-            res += f"<img src='{string[p1:p2-1]}' alt='{string[b1:b2]}'>"
+            alt = string[b1:b2].replace("'", '&#39;')
+            res += f"<img src='{string[p1:p2-1]}' alt='{alt}'>"
         else:
             j = p2
             res += string[i:b1-1]
-- 
2.43.0


From 080453d2305ebddd5a499d0d330cdb71f55fd2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:11:42 +0000
Subject: [PATCH 114/114] fix: indented code starting with > was taken for a
 quotation in Markdown

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index dcc002c..d076267 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -11,7 +11,7 @@ def indentation_and_first_token(string: str):
         c = string[i]
         if c == ' ':
             i += 1
-        elif c == '>':
+        elif c == '>' and (blockquote or i < 4):
             blockquote = True
             i += 1
         elif c == '\t':
-- 
2.43.0

