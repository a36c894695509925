From cfdf345a0e937aa980807bb0c5f1cec25469c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 01/62] fix: XXX writer keeps stitches of exactly 124 units as
 stitches

The long form it used for them is read back as a move, so the penetration was lost.
---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..c27e423 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -124 <= dx <= 124 and -124 <= dy <= 124:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From 928c50a3b166a34d5cb1d7d906b8dcfc827a3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 02/62] fix: VP3 thread strings are prefixed with their length
 in bytes

Any text outside ASCII made the file unreadable.
---
 pyembroidery/Vp3Writer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 43e62fd..32a833b 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -18,9 +18,8 @@ MAX_STITCH_DISTANCE = 255
 
 
 def vp3_write_string_8(stream, string):
-    write_int_16be(stream, len(string))
-    write_string_utf8(stream, string)
-    # vp3_write_length_and_bytes(stream, bytestring)
+    # The length prefix counts the encoded bytes, not the characters.
+    vp3_write_length_and_bytes(stream, string.encode("utf8"))
 
 
 def vp3_write_string_16(stream, string):
-- 
2.43.0


From 8e4ce1fdf05ca7a19f594741402897eccd80ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 03/62] fix: VP3 keeps the position of every colour block

The writer truncated the block origins to whole units, so designs of odd size
shifted after a colour change, and the reader skipped the move to a block whose
start has a zero coordinate.
---
 pyembroidery/Vp3Reader.py |  6 +++---
 pyembroidery/Vp3Writer.py | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 3f973f6..40e1fde 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -61,13 +61,13 @@ def read(f, out, settings=None):
     skip_vp3_string(f)  # "Produced by     Software Ltd"
     count_colors = read_int_16be(f)
     for i in range(0, count_colors):
-        vp3_read_colorblock(f, out, center_x, center_y)
+        vp3_read_colorblock(f, out, center_x, center_y, i == 0)
         if (i + 1) < count_colors:  # Don't add the color change on the final read.
             out.color_change()
     out.end()
 
 
-def vp3_read_colorblock(f, out, center_x, center_y):
+def vp3_read_colorblock(f, out, center_x, center_y, first):
     bytescheck = f.read(3)  # \x00\x05\x00
     distance_to_next_block_050 = read_int_32be(f)
     block_end_position = distance_to_next_block_050 + f.tell()
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 and abs_y != 0:
+    if not first or abs_x != 0 or abs_y != 0:
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 32a833b..03dc1f9 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -122,20 +122,20 @@ def write_design_block(f, extends, colorblocks):
     center_x = extends[2] - half_width
     center_y = extends[3] - half_height
 
-    write_int_32be(f, int(center_x) * 100)  # initial x
-    write_int_32be(f, int(center_y) * -100)  # initial y
+    write_int_32be(f, int(round(center_x * 100)))  # initial x
+    write_int_32be(f, int(round(center_y * -100)))  # initial y
     write_int_8(f, 0)
     write_int_8(f, 0)
     write_int_8(f, 0)
 
     # extends 2
-    write_int_32be(f, int(half_width) * -100)
-    write_int_32be(f, int(half_width) * 100)
-    write_int_32be(f, int(half_height) * -100)
-    write_int_32be(f, int(half_height) * 100)
+    write_int_32be(f, int(round(half_width * -100)))
+    write_int_32be(f, int(round(half_width * 100)))
+    write_int_32be(f, int(round(half_height * -100)))
+    write_int_32be(f, int(round(half_height * 100)))
 
-    write_int_32be(f, int(width) * 100)
-    write_int_32be(f, int(height) * 100)
+    write_int_32be(f, int(round(width * 100)))
+    write_int_32be(f, int(round(height * 100)))
     vp3_write_string_16(f, "")  # This is notes and settings string.
 
     f.write(b"\x64\x64")  # write_int_16be(f, 25700)
@@ -180,16 +180,16 @@ def write_vp3_colorblock(f, first, center_x, center_y, stitches, thread):
         last_pos_y = 0
     start_position_from_center_x = first_pos_x - center_x
     start_position_from_center_y = -(first_pos_y - center_y)
-    write_int_32be(f, int(start_position_from_center_x) * 100)
-    write_int_32be(f, int(start_position_from_center_y) * 100)
+    write_int_32be(f, int(round(start_position_from_center_x * 100)))
+    write_int_32be(f, int(round(start_position_from_center_y * 100)))
 
     vp3_write_thread(f, thread)
 
     block_shift_x = last_pos_x - first_pos_x
     block_shift_y = -(last_pos_y - first_pos_y)
 
-    write_int_32be(f, int(block_shift_x) * 100)
-    write_int_32be(f, int(block_shift_y) * 100)
+    write_int_32be(f, int(round(block_shift_x * 100)))
+    write_int_32be(f, int(round(block_shift_y * 100)))
 
     write_stitches_block(f, stitches, first_pos_x, first_pos_y)
 
-- 
2.43.0


From 13959b2b3b3fd0e36ccae9795fe1d66387c42222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 04/62] fix: JEF writes a palette entry for a colour change
 that comes first

A design starting with a colour change got one entry too few and could not be
loaded back.
---
 pyembroidery/JefWriter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 0fdace4..6528463 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -42,9 +42,13 @@ def write(pattern, f, settings=None):
     for stitch in pattern.stitches:
         # Iterate all stitches.
         flags = stitch[2] & COMMAND_MASK
-        if flags == COLOR_CHANGE or index_in_threadlist == 0:
-            # If color change *or* initial color unset.
-            thread = pattern.threadlist[index_in_threadlist]
+        starting_blocks = 0
+        if index_in_threadlist == 0:
+            starting_blocks += 1  # initial color unset.
+        if flags == COLOR_CHANGE:
+            starting_blocks += 1
+        for _ in range(starting_blocks):
+            thread = pattern.get_thread_or_filler(index_in_threadlist)
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-- 
2.43.0


From 7781b03be2bb6f693ca051725c140dde9738535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 05/62] fix: PES and PEC text fields are sized in bytes

Text outside ASCII made the length prefixes and the PEC label width wrong, which
shifted everything after it and corrupted colours and stitches.
---
 pyembroidery/PecWriter.py   |  6 +++++-
 pyembroidery/PesWriter.py   | 14 ++++++++------
 pyembroidery/WriteHelper.py |  8 ++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3feae2b..832e4a9 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -3,6 +3,7 @@ from .EmbThread import build_unique_palette
 from .EmbThreadPec import get_thread_set
 from .PecGraphics import draw_scaled, get_blank
 from .WriteHelper import (
+    truncate_utf8,
     write_int_8,
     write_int_16le,
     write_int_24le,
@@ -45,7 +46,10 @@ def write_pec(pattern, f, threadlist=None):
 
 def write_pec_header(pattern, f, threadlist):
     name = pattern.get_metadata("name", "Untitled")
-    write_string_utf8(f, "LA:%-16s\r" % name[:8])
+    # The label field is 16 bytes wide, of which 8 are used.
+    write_string_utf8(f, "LA:")
+    f.write(truncate_utf8(name, 8).ljust(16))
+    write_string_utf8(f, "\r")
     f.write(b"\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\xFF\x00")
     write_int_8(f, int(PEC_ICON_WIDTH / 8))  # PEC BYTE STRIDE
     write_int_8(f, int(PEC_ICON_HEIGHT))  # PEC ICON HEIGHT
diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 7a48c58..bc860fa 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .EmbThreadPec import get_thread_set
 from .PecWriter import write_pec
 from .WriteHelper import (
+    truncate_utf8,
     write_float_32le,
     write_int_8,
     write_int_16le,
@@ -219,19 +220,20 @@ def write_pes_string_8(f, string):
     if string is None:
         write_int_8(f, 0)
         return
-    if len(string) > 255:
-        string = string[:255]
-    write_int_8(f, len(string))
-    write_string_utf8(f, string)
+    # The length prefix counts the encoded bytes, not the characters.
+    data = truncate_utf8(string, 255)
+    write_int_8(f, len(data))
+    f.write(data)
 
 
 def write_pes_string_16(f, string):
     if string is None:
         write_int_16le(f, 0)
         return
-    write_int_16le(f, len(string))
+    data = truncate_utf8(string, 65535)
+    write_int_16le(f, len(data))
     # 16 refers to the size write not the string encoding.
-    write_string_utf8(f, string)
+    f.write(data)
 
 
 def write_pes_thread(f, thread):
diff --git a/pyembroidery/WriteHelper.py b/pyembroidery/WriteHelper.py
index e9648c0..8927064 100644
--- a/pyembroidery/WriteHelper.py
+++ b/pyembroidery/WriteHelper.py
@@ -120,3 +120,11 @@ def write_string_utf8(stream, string):
         stream.write(bytes(string).encode("utf8"))
     except TypeError:
         stream.write(bytes(string, "utf8"))
+
+
+def truncate_utf8(string, limit):
+    """Encodes the string as utf8, shortened to whole characters within limit bytes."""
+    data = string.encode("utf8")
+    if len(data) > limit:
+        data = data[:limit].decode("utf8", "ignore").encode("utf8")
+    return data
-- 
2.43.0


From adfd084764ce7b0a05793f7961f8e177cdcf0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 06/62] fix: INF records are sized in bytes

Thread text outside ASCII gave records the wrong length, and the threads after
it were lost or the file could not be read.
---
 pyembroidery/InfWriter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/InfWriter.py b/pyembroidery/InfWriter.py
index b5ebf49..b315408 100644
--- a/pyembroidery/InfWriter.py
+++ b/pyembroidery/InfWriter.py
@@ -1,4 +1,4 @@
-from .WriteHelper import write_int_8, write_int_16be, write_int_32be, write_string_utf8
+from .WriteHelper import write_int_8, write_int_16be, write_int_32be
 
 ENCODE = False
 
@@ -25,6 +25,8 @@ def write(pattern, f, settings=None):
         chart = thread.chart
         if chart is None:
             chart = "Unknown"
+        details = details.encode("utf8")
+        chart = chart.encode("utf8")
         write_int_16be(
             f, 11 + len(details) + len(chart)
         )  # 2 + 2 + 1 + 1 + 1 + 2 + d + 1 + c + 1 = 11 + d + c
@@ -34,8 +36,8 @@ def write(pattern, f, settings=None):
         write_int_8(f, thread.get_green())
         write_int_8(f, thread.get_blue())
         write_int_16be(f, index)  # needle number
-        write_string_utf8(f, details)
+        f.write(details)
         write_int_8(f, 0)
-        write_string_utf8(f, chart)
+        f.write(chart)
         write_int_8(f, 0)
     patch_byte_offset(f, placeholder)
-- 
2.43.0


From 4297b31e3c7911df15d053adef9c392affb2d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 07/62] fix: DST header text cannot overflow or break the 512
 byte header

A long name, author or copyright, many threads in the extended header, or a line
end in a text field pushed header bytes into the stitches or added header lines.
---
 pyembroidery/DstWriter.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0084404..be65a1c 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -1,5 +1,5 @@
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8
+from .WriteHelper import truncate_utf8, write_string_utf8
 
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_UTILIZE
 FULL_JUMP = False
@@ -9,6 +9,7 @@ MAX_STITCH_DISTANCE = 121
 
 PPMM = 10
 DSTHEADERSIZE = 512
+NAME_MAX = 128  # Bytes of the name kept, so that the header fields fit.
 
 
 def bit(b):
@@ -104,6 +105,21 @@ def encode_record(x, y, flags):
     return bytes(bytearray([b0, b1, b2]))
 
 
+def header_text(string, limit):
+    """Text for a header line: no line ends or header terminator, at most limit bytes."""
+    string = "".join([c if c >= " " else " " for c in "%s" % string])
+    return truncate_utf8(string, max(0, limit))
+
+
+def write_extended_field(f, prefix, string):
+    # The header is 512 bytes including its terminator.
+    room = DSTHEADERSIZE - 1 - f.tell() - len(prefix) - 1
+    if room > 0:
+        write_string_utf8(f, prefix)
+        f.write(header_text(string, room))
+        f.write(b"\r")
+
+
 def write(pattern, f, settings=None):
     extended_header = False
     trim_at = 3
@@ -119,7 +135,9 @@ def write(pattern, f, settings=None):
 
     name = pattern.get_metadata("name", "Untitled")
 
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    write_string_utf8(f, "LA:")
+    f.write(header_text(name, NAME_MAX).ljust(16))
+    f.write(b"\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_color_changes())
 
@@ -147,17 +165,22 @@ def write(pattern, f, settings=None):
     if extended_header:
         author = pattern.get_metadata("author")
         if author is not None:
-            write_string_utf8(f, "AU:%s\r" % author)
+            write_extended_field(f, "AU:", author)
         meta_copyright = pattern.get_metadata("copyright")
         if meta_copyright is not None:
-            write_string_utf8(f, "CP:%s\r" % meta_copyright)
+            write_extended_field(f, "CP:", meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_string_utf8(
-                    f,
-                    "TC:%s,%s,%s\r"
-                    % (thread.hex_color(), thread.description, thread.catalog_number),
+                line = "TC:%s,%s,%s" % (
+                    thread.hex_color(),
+                    thread.description,
+                    thread.catalog_number,
                 )
+                line = header_text(line, len(line) * 4)
+                if f.tell() + len(line) + 2 > DSTHEADERSIZE:
+                    break  # The header is full.
+                f.write(line)
+                f.write(b"\r")
     f.write(b"\x1a")
     for i in range(f.tell(), DSTHEADERSIZE):
         f.write(b"\x20")  # space
-- 
2.43.0


From dfe6180d93189d82ff0debd0ceb664661ba5cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 08/62] fix: TBF name and TP fields keep their fixed width

A longer or non-ASCII name moved the thread order and the thread list, which the
readers find at fixed offsets.
---
 pyembroidery/TbfWriter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index bf47301..26b2ee8 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -1,6 +1,6 @@
 from . import decode_embroidery_command
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8, write_int_8
+from .WriteHelper import truncate_utf8, write_string_utf8, write_int_8
 
 FULL_JUMP = False
 ROUND = True
@@ -20,7 +20,10 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "3.00")
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    # The header fields are at fixed offsets.
+    write_string_utf8(f, "LA:")
+    f.write(truncate_utf8("%s" % name, 16).ljust(16))
+    write_string_utf8(f, "\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
@@ -45,7 +48,9 @@ def write(pattern, f, settings=None):
 
     # TP is unknown.
     tp = pattern.get_metadata("tp", "EG/")
-    write_string_utf8(f, "TP:%-32s\r" % tp)
+    write_string_utf8(f, "TP:")
+    f.write(truncate_utf8("%s" % tp, 32).ljust(32))
+    write_string_utf8(f, "\r")
 
     # JC is unknown.
     jc = "3"
-- 
2.43.0


From e9fa4016e87a81f12c7147aa938c70e99141a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 09/62] fix: G-code comments cannot break the program or add
 threads

A closing bracket or line end in thread text or metadata ended the comment and
the rest was read as code, and any metadata mentioning a Thread added one.
---
 pyembroidery/GcodeReader.py |  5 ++++-
 pyembroidery/GcodeWriter.py | 15 +++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 9c20dc1..71f2732 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -1,3 +1,6 @@
+import re
+
+
 def parse(f):
     comment = None
     code = ""
@@ -72,7 +75,7 @@ def read(f, out, settings=None):
     for gc in parse(f):
         if "comment" in gc:
             comment = gc["comment"]
-            if "Thread" in comment:
+            if re.match(r"Thread\d+: ", comment):
                 split = comment.split(" ")
                 out.add_thread(split[1])
 
diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index b049aac..e9b3a10 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -40,23 +40,30 @@ def write_data(pattern, f):
             write_string_utf8(f, "(%s: %d)\n" % (name, the_value))
 
 
+def write_comment(f, text):
+    """Writes a comment, which ends at the first closing bracket or line end."""
+    for c in ")\r\n":
+        text = text.replace(c, " ")
+    write_string_utf8(f, "(%s)\n" % text)
+
+
 def write_metadata(pattern, f):
     if len(pattern.extras) > 0:
         for the_key, the_value in pattern.extras.items():
             try:
                 if isinstance(the_value, basestring):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_comment(f, "%s: %s" % (the_key, the_value))
             except NameError:
                 if isinstance(the_value, str):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_comment(f, "%s: %s" % (the_key, the_value))
 
 
 def write_threads(pattern, f):
     if len(pattern.threadlist) > 0:
         for i, thread in enumerate(pattern.threadlist):
-            write_string_utf8(
+            write_comment(
                 f,
-                "(Thread%d: %s %s %s %s)\n"
+                "Thread%d: %s %s %s %s"
                 % (
                     i,
                     thread.hex_color(),
-- 
2.43.0


From b4c510e6d9da1805c637a632c3726e8a00d98591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 10/62] fix: threads of one colour get one entry in a unique
 palette

---
 pyembroidery/EmbThread.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 995789d..71d68c7 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -1,9 +1,12 @@
 def build_unique_palette(thread_palette, threadlist):
     """Turns a threadlist into a unique index list with the thread palette"""
     chart = [None] * len(thread_palette)  # Create a lookup chart.
-    for thread in set(
-        threadlist
+    # Threads of one color need one entry, whatever their other fields say.
+    unique = dict((thread.color & 0xFFFFFF, thread) for thread in threadlist)
+    for color in set(
+        unique
     ):  # for each unique color, move closest remaining thread to lookup chart.
+        thread = unique[color]
         index = thread.find_nearest_color_index(thread_palette)
         if index is None:
             break  # No more threads remain in palette
-- 
2.43.0


From cbf2f613a71bf010ec28bd31a8770d9876ad2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 11/62] fix: duplicate colours are matched to the right thread
 after an empty block

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..a5a4cbd 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -675,6 +675,8 @@ class EmbPattern:
                         return
                     init_color = False
             elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
+                if init_color:  # The block was empty, its thread is used up.
+                    thread_index += 1
                 init_color = True
                 last_change = position
 
-- 
2.43.0


From cc53fd3b89269edb1ca5e9152a794cdd6cc39498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 12/62] fix: CSV keeps quotes, unset fields and the details and
 weight of threads

---
 pyembroidery/CsvReader.py | 3 ++-
 pyembroidery/CsvWriter.py | 4 +++-
 pyembroidery/EmbThread.py | 4 ++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 4cf33d3..9a76396 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -72,4 +72,5 @@ def read(f, out, settings=None):
                     thread_add["weight"] = row[7]
                 except IndexError:
                     pass
-            out.add_thread(thread_add)
+            # Fields which are not set are stored as empty.
+            out.add_thread({k: v for k, v in thread_add.items() if v != ""})
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 05e0d23..efdbb59 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,7 +14,9 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
-        string += '"%s"' % v
+        if v is None:
+            v = ""
+        string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
 
diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 71d68c7..b6b6c6c 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -254,6 +254,10 @@ class EmbThread:
                 self.catalog_number = thread["id"]
             if "catalog" in thread:
                 self.catalog_number = thread["catalog"]
+            if "details" in thread:
+                self.details = thread["details"]
+            if "weight" in thread:
+                self.weight = thread["weight"]
         else:
             try:
                 if isinstance(thread, basestring):
-- 
2.43.0


From 7441fb6c56cd03598d126aba5070166dbea796b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 13/62] fix: sequin contingencies and NO_COMMAND survive CSV
 and JSON

---
 pyembroidery/CsvWriter.py    | 2 ++
 pyembroidery/EmbFunctions.py | 8 ++++++++
 pyembroidery/JsonWriter.py   | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index efdbb59..e076d66 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -117,6 +117,8 @@ def write_threads(pattern, f):
 
 
 def decoded_name(names, data):
+    if data == NO_COMMAND:
+        return names[NO_COMMAND]
     command = decode_embroidery_command(data)
     try:
         name = names[command[0]]
diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index f535b4e..9485c38 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -81,6 +81,10 @@ def get_command_dictionary():
         "CONTINGENCY_LONG_STITCH_NONE": CONTINGENCY_LONG_STITCH_NONE,
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": CONTINGENCY_LONG_STITCH_JUMP_NEEDLE,
         "CONTINGENCY_LONG_STITCH_SEW_TO": CONTINGENCY_LONG_STITCH_SEW_TO,
+        "CONTINGENCY_SEQUIN_UTILIZE": CONTINGENCY_SEQUIN_UTILIZE,
+        "CONTINGENCY_SEQUIN_JUMP": CONTINGENCY_SEQUIN_JUMP,
+        "CONTINGENCY_SEQUIN_STITCH": CONTINGENCY_SEQUIN_STITCH,
+        "CONTINGENCY_SEQUIN_REMOVE": CONTINGENCY_SEQUIN_REMOVE,
     }
 
 
@@ -124,4 +128,8 @@ def get_common_name_dictionary():
         CONTINGENCY_LONG_STITCH_NONE: "CONTINGENCY_LONG_STITCH_NONE",
         CONTINGENCY_LONG_STITCH_JUMP_NEEDLE: "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE",
         CONTINGENCY_LONG_STITCH_SEW_TO: "CONTINGENCY_LONG_STITCH_SEW_TO",
+        CONTINGENCY_SEQUIN_UTILIZE: "CONTINGENCY_SEQUIN_UTILIZE",
+        CONTINGENCY_SEQUIN_JUMP: "CONTINGENCY_SEQUIN_JUMP",
+        CONTINGENCY_SEQUIN_STITCH: "CONTINGENCY_SEQUIN_STITCH",
+        CONTINGENCY_SEQUIN_REMOVE: "CONTINGENCY_SEQUIN_REMOVE",
     }
diff --git a/pyembroidery/JsonWriter.py b/pyembroidery/JsonWriter.py
index 80529da..b181403 100644
--- a/pyembroidery/JsonWriter.py
+++ b/pyembroidery/JsonWriter.py
@@ -5,6 +5,8 @@ WRITE_FILE_IN_TEXT_MODE = True
 
 
 def decoded_name(names, data):
+    if data == NO_COMMAND:
+        return names[NO_COMMAND]
     command = decode_embroidery_command(data)
     try:
         name = names[command[0]]
-- 
2.43.0


From e45434f200bd6b4168bde11fba8831f9c1a029be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 14/62] fix: text files are read as the utf8 they are written
 in

---
 pyembroidery/EmbPattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index a5a4cbd..fb702c6 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1481,7 +1481,8 @@ class EmbPattern:
             except AttributeError:
                 pass
             if text_mode:
-                with open(f, "r") as stream:
+                # Text formats are written in utf8, and may contain line breaks.
+                with open(f, "r", encoding="utf-8", newline="") as stream:
                     reader.read(stream, pattern, settings)
             else:
                 with open(f, "rb") as stream:
-- 
2.43.0


From 66558dc7325d788db9fcae76d0c7207e64ece7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 15/62] fix: TXT lines carry the colour of their own block

---
 pyembroidery/TxtWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index 362b907..a627277 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -46,6 +46,7 @@ def write_normal(pattern, f):
         yy = stitch[1]
         flags = stitch[2] & COMMAND_MASK
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
+            color_index += 1
             color = pattern.get_thread_or_filler(color_index).color
         named_command = names[(flags & COMMAND_MASK)]
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
-- 
2.43.0


From 15fc2e18245a260f9a5edb78d9ef85061946b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 16/62] fix: PNG guides fit on small designs

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 17795db..036b098 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -458,6 +458,8 @@ class PngBuffer:
                     else:
                         gx = x + cx + 2
                         gy = y + cy + 2
+                    if not (0 <= gx < self.width and 0 <= gy < self.height):
+                        continue
                     pos = (self.width * gy) + gx
                     idx = pos * 4
                     a2 = (9.0 - v) / 9.0
-- 
2.43.0


From c2149c0bd594690674ae3abffda2bee79bb2eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 17/62] fix: copies and combined patterns do not share commands
 and threads with their sources

---
 pyembroidery/EmbPattern.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index fb702c6..2ba962a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1,3 +1,4 @@
+import copy
 import os
 
 import pyembroidery.A10oReader as A10oReader
@@ -87,8 +88,8 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
-                self.threadlist = arg0.threadlist[:]
+                self.stitches = [s[:] for s in arg0.stitches]
+                self.threadlist = [copy.copy(t) for t in arg0.threadlist]
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
                 self._previousY = arg0._previousY
@@ -206,8 +207,8 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
-        emb_pattern.threadlist = self.threadlist[:]
+        emb_pattern.stitches = [s[:] for s in self.stitches]
+        emb_pattern.threadlist = [copy.copy(t) for t in self.threadlist]
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
         emb_pattern._previousY = self._previousY
@@ -634,14 +635,15 @@ class EmbPattern:
         # Add the new thread only if it's different from the last one
         self.fix_color_count()
 
-        if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
-                self.threadlist.extend(pattern.threadlist[1:])
+        threadlist = [copy.copy(t) for t in pattern.threadlist]
+        if len(threadlist) > 0:
+            if threadlist[0] == self.threadlist[-1]:
+                self.threadlist.extend(threadlist[1:])
             else:
-                self.threadlist.extend(pattern.threadlist)
+                self.threadlist.extend(threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([s[:] for s in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From e398cda20055fc1e9b1c05417da0feeb7f6e0679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 18/62] fix: saving without encoding does not modify the
 pattern

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 2ba962a..9766e9d 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1635,6 +1635,8 @@ class EmbPattern:
                 except AttributeError:
                     pass
             pattern = pattern.get_normalized_pattern(settings)
+        else:
+            pattern = pattern.copy()  # Writers may modify the pattern they write.
 
         if EmbPattern.is_str(stream):
             text_mode = False
-- 
2.43.0


From e8167f9f8693ea0606d065521a62b169fa728010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 19/62] fix: copy.deepcopy works, and adding an empty list
 keeps the pattern

---
 pyembroidery/EmbPattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9766e9d..c4b2e7a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -146,7 +146,7 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         return self.copy()
 
     def __iadd__(self, other):
@@ -163,7 +163,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From cde18c865406ea85c80bd031cdd569abcb6680e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 20/62] fix: DAT needle changes load

---
 pyembroidery/DatReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 4494278..1ed8e88 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -74,7 +74,7 @@ def read_barudan_dat(f, out):
         if 0x09 <= command <= 0x17:
             # C01 - C14
             needle = command - 0x08
-            out.needle_out(needle)
+            out.needle_change(needle)
             if dx != 0 or dy != 0:
                 out.move(dx, dy)
             continue
-- 
2.43.0


From ed317fd77b1e46ff1445437fa42d01a2cbc3c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 21/62] fix: JPX colour changes keep a displacement along one
 axis

---
 pyembroidery/JpxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JpxReader.py b/pyembroidery/JpxReader.py
index 86e1d42..dec6405 100644
--- a/pyembroidery/JpxReader.py
+++ b/pyembroidery/JpxReader.py
@@ -22,7 +22,7 @@ def read_jpx_stitches(f, out):
             continue
         if ctrl == 0x01:  # Colorchange
             out.color_change()
-            if x != 0 and y != 0:
+            if x != 0 or y != 0:
                 out.move(x, y)
             continue
         if ctrl == 0x10:
-- 
2.43.0


From 9482b5d086567337be9e0e43e671a7b859060965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 22/62] fix: hex colours of a wrong length read as black, not
 None

---
 pyembroidery/EmbThread.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index b6b6c6c..a821291 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -77,6 +77,7 @@ def color_hex(hex_string):
         return int(h[:6], 16)
     elif size == 4 or size == 3:
         return int(h[0] + h[0] + h[1] + h[1] + h[2] + h[2], 16)
+    return 0x000000  # not a color: black, as for unknown color names.
 
 
 def color_distance_red_mean(r1, g1, b1, r2, g2, b2):
-- 
2.43.0


From da471e854f7843f1f9f19425baa5b7fe74753471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 23/62] fix: truncated PCD, PCQ, PCS and VP3 colours do not
 load as None

---
 pyembroidery/PcdReader.py | 5 ++++-
 pyembroidery/PcqReader.py | 5 ++++-
 pyembroidery/PcsReader.py | 5 ++++-
 pyembroidery/Vp3Reader.py | 4 +++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/PcdReader.py b/pyembroidery/PcdReader.py
index c31fc10..88f474f 100644
--- a/pyembroidery/PcdReader.py
+++ b/pyembroidery/PcdReader.py
@@ -19,8 +19,11 @@ def read_pc_file(f, out, settings=None):
     # 3 for PCS with large hoop.
     color_count = read_int_16le(f)
     for i in range(0, color_count):
+        color = read_int_24be(f)
+        if color is None:
+            break
         thread = EmbThread()
-        thread.color = read_int_24be(f)
+        thread.color = color
         out.add_thread(thread)
         f.seek(1, 1)
 
diff --git a/pyembroidery/PcqReader.py b/pyembroidery/PcqReader.py
index c31fc10..88f474f 100644
--- a/pyembroidery/PcqReader.py
+++ b/pyembroidery/PcqReader.py
@@ -19,8 +19,11 @@ def read_pc_file(f, out, settings=None):
     # 3 for PCS with large hoop.
     color_count = read_int_16le(f)
     for i in range(0, color_count):
+        color = read_int_24be(f)
+        if color is None:
+            break
         thread = EmbThread()
-        thread.color = read_int_24be(f)
+        thread.color = color
         out.add_thread(thread)
         f.seek(1, 1)
 
diff --git a/pyembroidery/PcsReader.py b/pyembroidery/PcsReader.py
index c31fc10..88f474f 100644
--- a/pyembroidery/PcsReader.py
+++ b/pyembroidery/PcsReader.py
@@ -19,8 +19,11 @@ def read_pc_file(f, out, settings=None):
     # 3 for PCS with large hoop.
     color_count = read_int_16le(f)
     for i in range(0, color_count):
+        color = read_int_24be(f)
+        if color is None:
+            break
         thread = EmbThread()
-        thread.color = read_int_24be(f)
+        thread.color = color
         out.add_thread(thread)
         f.seek(1, 1)
 
diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 40e1fde..c09639b 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -112,7 +112,9 @@ def vp3_read_thread(f):
     colors = read_int_8(f)
     transition = read_int_8(f)
     for m in range(0, colors):
-        thread.color = read_int_24be(f)
+        color = read_int_24be(f)
+        if color is not None:
+            thread.color = color
         parts = read_int_8(f)
         color_length = read_int_16be(f)
     thread_type = read_int_8(f)
-- 
2.43.0


From 56c02003b5ecba6936c59bed066d5fb93771b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 24/62] fix: loading JSON rejects coordinates that are not
 numbers

---
 pyembroidery/JsonReader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index f0ba0d9..782a511 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -37,5 +37,6 @@ def read(f, out, settings=None):
         thread.weight = t["weight"]
         out.add_thread(thread)
     for s in stitches:
-        out.stitches.append([s[0], s[1], decoded_command(command_dict, s[2])])
+        # The unary plus rejects coordinates that are not numbers.
+        out.stitches.append([+s[0], +s[1], decoded_command(command_dict, s[2])])
     out.extras.update(extras)
-- 
2.43.0


From 70d0b982c6ae5f800d21411140b6341f72de0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 25/62] fix: an empty PEC graphic prints as empty text

---
 pyembroidery/PecGraphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PecGraphics.py b/pyembroidery/PecGraphics.py
index 9317680..da5b978 100644
--- a/pyembroidery/PecGraphics.py
+++ b/pyembroidery/PecGraphics.py
@@ -343,7 +343,7 @@ def get_graphic_as_string(graphic, one="#", zero=" "):
     list_string = [
         one if (byte >> i) & 1 else zero for byte in graphic for i in range(0, 8)
     ]
-    bit_stride = 8 * stride
+    bit_stride = max(8 * stride, 1)
     bit_length = 8 * len(graphic)
     return "\n".join(
         "".join(list_string[m : m + bit_stride])
-- 
2.43.0


From ac4d3f1ee36b2d09a3b00914dab56886d3a32734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 26/62] fix: designs without threads and stitches save as PES
 v6

---
 pyembroidery/PesWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index bc860fa..6b26cee 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -321,7 +321,7 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
     color_index = 0
     current_thread = pattern.get_thread_or_filler(color_index)
     color_index += 1
-    color_code = current_thread.find_nearest_color_index(chart)
+    color_code = current_thread.find_nearest_color_index(chart) or 0
     stitched_x = 0
     stitched_y = 0
     for command_block in pattern.get_as_command_blocks():
@@ -335,7 +335,7 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
         elif command == COLOR_CHANGE:
             current_thread = pattern.get_thread_or_filler(color_index)
             color_index += 1
-            color_code = current_thread.find_nearest_color_index(chart)
+            color_code = current_thread.find_nearest_color_index(chart) or 0
             flag = 1
             continue
         elif command == STITCH:
-- 
2.43.0


From 2fd01c0ef88552dbd634bdf51262ac90a2aae875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 27/62] fix: truncated JEF files do not leave None in the
 threadlist

---
 pyembroidery/JefReader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index dd884d5..9d73771 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -69,3 +69,5 @@ def read(f, out, settings=None):
 
     f.seek(stitch_offset, 0)
     read_jef_stitches(f, out, settings)
+    # Stops the stitches did not get to are not threads.
+    out.threadlist[:] = [t for t in out.threadlist if t is not None]
-- 
2.43.0


From 2e2f25acdde597ff11c4f9730aeb51b9b1077d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 28/62] fix: damaged Huffman tables do not exhaust memory

---
 pyembroidery/EmbCompress.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index cddfc91..40f5c08 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -21,13 +21,16 @@ class Huffman:
     def build_table(self):
         """Build an index huffman table based on the lengths. lowest index value wins in a tie."""
         self.table_width = max(self.lengths)
+        if self.table_width > 16:  # lookup() works on 16 bits.
+            raise ValueError("Huffman code exceeds 16 bits.")
         self.table = []
         size = 1 << self.table_width
+        limit = size
         for bit_length in range(1, self.table_width + 1):
             size /= 2.0
             for len_index in range(0, len(self.lengths)):
                 length = self.lengths[len_index]
-                if length == bit_length:
+                if length == bit_length and len(self.table) < limit:
                     self.table += [len_index] * int(size)
 
     def lookup(self, byte_lookup):
-- 
2.43.0


From 8b3d41fa151ec5040190f53dfae2cc633c8a87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 29/62] fix: damaged lengths in HUS and VP3 do not allocate
 gigabytes

---
 pyembroidery/HusReader.py  | 13 ++++++++++---
 pyembroidery/ReadHelper.py | 17 ++++++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/HusReader.py b/pyembroidery/HusReader.py
index ebe5867..7de976b 100644
--- a/pyembroidery/HusReader.py
+++ b/pyembroidery/HusReader.py
@@ -1,6 +1,13 @@
 from .EmbCompress import expand
 from .EmbThreadHus import get_thread_set
-from .ReadHelper import read_int_16le, read_int_32le, read_string_8, signed8, signed16
+from .ReadHelper import (
+    read_available,
+    read_int_16le,
+    read_int_32le,
+    read_string_8,
+    signed8,
+    signed16,
+)
 
 
 def read(f, out, settings=None):
@@ -26,9 +33,9 @@ def read(f, out, settings=None):
         index = read_int_16le(f)
         out.add_thread(hus_thread_set[index])
     f.seek(command_offset, 0)
-    command_compressed = bytearray(f.read(x_offset - command_offset))
+    command_compressed = read_available(f, x_offset - command_offset)
     f.seek(x_offset, 0)
-    x_compressed = bytearray(f.read(y_offset - x_offset))
+    x_compressed = read_available(f, y_offset - x_offset)
     f.seek(y_offset, 0)
     y_compressed = bytearray(f.read())
 
diff --git a/pyembroidery/ReadHelper.py b/pyembroidery/ReadHelper.py
index f202742..552e9e2 100644
--- a/pyembroidery/ReadHelper.py
+++ b/pyembroidery/ReadHelper.py
@@ -21,8 +21,23 @@ def signed24(v):
         return v
 
 
+def read_available(stream, n):
+    """Reads n bytes or as many as are left, a damaged length does not
+    allocate more than the stream holds."""
+    if n < 0:
+        raise ValueError("Length is negative.")
+    byte = bytearray()
+    while n > 0:
+        part = stream.read(min(n, 0x10000))
+        if not part:
+            break
+        byte += part
+        n -= len(part)
+    return byte
+
+
 def read_signed(stream, n):
-    byte = bytearray(stream.read(n))
+    byte = read_available(stream, n)
     signed_bytes = []
     for b in byte:
         signed_bytes.append(signed8(b))
-- 
2.43.0


From e4ee97d69e1aed3fdc9d3f1489a873ce83d17fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 30/62] fix: designs whose name is None save

---
 pyembroidery/EmbPattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index c4b2e7a..d17aeb5 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -321,7 +321,8 @@ class EmbPattern:
         self.extras[name] = data
 
     def get_metadata(self, name, default=None):
-        return self.extras.get(name, default)
+        value = self.extras.get(name)
+        return default if value is None else value
 
     def bounds(self):
         """Returns the bounds of the stitch data:
-- 
2.43.0


From 80de165598574e1761f5bedfbfe34482034b42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 31/62] fix: truncated TBF colours do not load as None

---
 pyembroidery/TbfReader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/TbfReader.py b/pyembroidery/TbfReader.py
index 315f2ae..98af8b6 100644
--- a/pyembroidery/TbfReader.py
+++ b/pyembroidery/TbfReader.py
@@ -11,8 +11,11 @@ def read(f, out, settings=None):
     f.seek(0x20E, 0)
     while True:
         if read_int_8(f) == 0x45:
+            color = read_int_24be(f)
+            if color is None:
+                break
             thread = EmbThread()
-            thread.color = read_int_24be(f)
+            thread.color = color
             read_int_8(f)  # Should be 0x20 " "
             out.add_thread(thread)
         else:
-- 
2.43.0


From 99ec3e6c3980f6e423285756df115cb9c471ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:54 +0000
Subject: [PATCH 32/62] fix: loading into a design leaves what it already has
 alone

---
 pyembroidery/EmbPattern.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index d17aeb5..e7ba266 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1476,6 +1476,15 @@ class EmbPattern:
             return None
         if pattern is None:
             pattern = EmbPattern()
+        existing = None
+        if len(pattern.stitches) or len(pattern.threadlist):
+            # The readers may process what they loaded as a whole. That must not
+            # reach what the pattern already has, only the position carries over.
+            existing = pattern
+            pattern = EmbPattern()
+            pattern.add_stitch_absolute(
+                NO_COMMAND, existing._previousX, existing._previousY
+            )
 
         if EmbPattern.is_str(f):
             text_mode = False
@@ -1492,6 +1501,13 @@ class EmbPattern:
                     reader.read(stream, pattern, settings)
         else:
             reader.read(f, pattern, settings)
+        if existing is not None:
+            existing.stitches.extend(pattern.stitches[1:])
+            existing.threadlist.extend(pattern.threadlist)
+            existing.extras.update(pattern.extras)
+            existing._previousX = pattern._previousX
+            existing._previousY = pattern._previousY
+            return existing
         return pattern
 
     @staticmethod
-- 
2.43.0


From f91dda044040e73c3169e0333d2d588226a3dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 33/62] fix: converting from an unsupported file type raises

---
 pyembroidery/EmbPattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index e7ba266..5c9032f 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1461,7 +1461,8 @@ class EmbPattern:
     def convert(filename_from, filename_to, settings=None):
         pattern = EmbPattern.static_read(filename_from, settings)
         if pattern is None:
-            return
+            extension = EmbPattern.get_extension_by_filename(filename_from)
+            raise IOError("Conversion from file type '{extension}' is not supported".format(extension=extension))
         EmbPattern.static_write(pattern, filename_to, settings)
 
     @staticmethod
-- 
2.43.0


From a25f13458a969846fa8f598e38a0c3cd7069aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 34/62] fix: threads kept with PEC graphics are not shared with
 the design

---
 pyembroidery/PecReader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/PecReader.py b/pyembroidery/PecReader.py
index 8d24360..4b45268 100644
--- a/pyembroidery/PecReader.py
+++ b/pyembroidery/PecReader.py
@@ -1,3 +1,5 @@
+import copy
+
 from .EmbThreadPec import get_thread_set
 from .ReadHelper import read_int_8, read_int_24le, read_string_8
 
@@ -44,7 +46,7 @@ def read_pec(f, out, pes_chart=None):
 
 
 def read_pec_graphics(f, out, size, stride, count, values):
-    v = values[:]
+    v = [copy.copy(t) for t in values]
     v.insert(0, None)
     for i in range(0, count):
         graphic = bytearray(f.read(size))
-- 
2.43.0


From e568ba84f15d85aa71820e4b85917274b5d0e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 35/62] fix: filler threads never repeat a thread already in
 use

---
 pyembroidery/EmbEncoder.py |  3 ++-
 pyembroidery/EmbPattern.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..7fa75ee 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -179,7 +179,8 @@ class Transcoder:
                     s[2] += 1
                 needle_index += 1
             if s[3] is None:
-                s[3] = self.source_pattern.get_thread_or_filler(s[1])
+                others = [t[3] for t in change_sequence.values() if t[3] is not None]
+                s[3] = self.source_pattern.get_thread_or_filler(s[1], others)
         return change_sequence
 
     def transcode_main(self):
diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 5c9032f..876e8b6 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -373,9 +373,15 @@ class EmbPattern:
         thread.description = "Random"
         return thread
 
-    def get_thread_or_filler(self, index):
+    def get_thread_or_filler(self, index, others=()):
         if len(self.threadlist) <= index:
-            return self.get_random_thread()
+            thread = self.get_random_thread()
+            # A filler must not be taken for a thread that is already in use.
+            colors = [t.color & 0xFFFFFF for t in self.threadlist]
+            colors += [t.color & 0xFFFFFF for t in others]
+            while thread.color in colors:
+                thread.color = (thread.color + 1) & 0xFFFFFF
+            return thread
         else:
             return self.threadlist[index]
 
-- 
2.43.0


From b31f72e888596331824234f329f094c21cab606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:07 +0000
Subject: [PATCH 36/62] fix: palette entries go to threads in the order of the
 design

---
 pyembroidery/EmbThread.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index a821291..98e7251 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -3,8 +3,8 @@ def build_unique_palette(thread_palette, threadlist):
     chart = [None] * len(thread_palette)  # Create a lookup chart.
     # Threads of one color need one entry, whatever their other fields say.
     unique = dict((thread.color & 0xFFFFFF, thread) for thread in threadlist)
-    for color in set(
-        unique
+    for color in sorted(
+        unique, key=[t.color & 0xFFFFFF for t in threadlist].index
     ):  # for each unique color, move closest remaining thread to lookup chart.
         thread = unique[color]
         index = thread.find_nearest_color_index(thread_palette)
-- 
2.43.0


From 6acef21f9bfa5ca08c59aa5d4e696a9ba9df3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 37/62] fix: PES segments keep their colours after an empty
 colour block

Consecutive colour changes form one command block, which counted as a
single change, so the CSewSeg segments behind it got the colour of an
earlier thread.
---
 pyembroidery/PesWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 6b26cee..ca61193 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -333,6 +333,8 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
             block.append([last_pos[0] - adjust_x, last_pos[1] - adjust_y])
             flag = 1
         elif command == COLOR_CHANGE:
+            # Empty color blocks give several changes in one command block.
+            color_index += len(command_block) - 1
             current_thread = pattern.get_thread_or_filler(color_index)
             color_index += 1
             color_code = current_thread.find_nearest_color_index(chart) or 0
-- 
2.43.0


From 98bfdd793ccfa2352017915e59212df2db7f550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 38/62] fix: loading keeps a stop between two jumps that cancel
 out

interpolate_trims removes jumps whose total displacement is zero and
removed the command between them as well.
---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 876e8b6..4be3625 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -778,6 +778,8 @@ class EmbPattern:
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
                 jumping = False
+            elif command != JUMP:
+                jumping = False  # Jumps around another command are not one jump.
             if command == JUMP:
                 if not jumping:
                     jump_dx = 0
-- 
2.43.0


From b2932022c33e12a63f9d75ce8dd0d1273188e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 39/62] fix: lower case G-code words are read

---
 pyembroidery/GcodeReader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 71f2732..487cdde 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -48,14 +48,13 @@ def parse(f):
 
         if ord_A <= b <= ord_Z:
             b = b - ord_A + ord_a
-            byte = chr(b)
         is_letter = ord_a <= b <= ord_z
         if (is_letter or is_end) and len(code) != 0:
             command_map[code] = float(value)
             code = ""
             value = ""
         if is_letter:
-            code += str(byte)
+            code += chr(b)
             continue
         elif is_end:
             if len(command_map) == 0:
-- 
2.43.0


From bc283de9d8facacde043807e1a09b962b5f96d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 40/62] fix: G-code moves of a single axis or of Z alone are
 read

---
 pyembroidery/GcodeReader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 487cdde..e53e4f9 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -79,11 +79,20 @@ def read(f, out, settings=None):
                 out.add_thread(split[1])
 
         if "g" in gc:
-            if "x" in gc and "y" in gc and gc["g"] == 0.0 or gc["g"] == 1.0:
+            if ("x" in gc or "y" in gc) and (gc["g"] == 0.0 or gc["g"] == 1.0):
+                # An axis that is not given does not move.
                 if absolute_mode:
-                    out.stitch_abs(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
+                    x, y = out._previousX, out._previousY
                 else:
-                    out.stitch(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
+                    x, y = 0, 0
+                if "x" in gc:
+                    x = gc["x"] * scale * flip_x
+                if "y" in gc:
+                    y = gc["y"] * scale * flip_y
+                if absolute_mode:
+                    out.stitch_abs(x, y)
+                else:
+                    out.stitch(x, y)
                 continue
             if gc["g"] == 21.0 or gc["g"] == 71.0:
                 scale = 10.0  # g20 is mm mode. 10 1/10th mm in a mm.
-- 
2.43.0


From fc3330afaa465464c569d6b5b0145c1ed4f44b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 41/62] fix: the last line of a G-code file needs no line end

---
 pyembroidery/GcodeReader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index e53e4f9..c209b2f 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -6,16 +6,18 @@ def parse(f):
     code = ""
     value = ""
     command_map = {}
+    ended = False
     ord_a = ord("a")
     ord_A = ord("A")
     ord_z = ord("z")
     ord_Z = ord("Z")
     while True:
         byte = f.read(1)
-        if byte is None:
-            break
-        if len(byte) == 0:
-            break
+        if byte is None or len(byte) == 0:
+            if ended:
+                break
+            ended = True
+            byte = b"\n"  # The last line ends with the file.
         is_end = byte == b"\n" or byte == b"\r"
         if comment is not None:
             if byte == b")" or is_end:
-- 
2.43.0


From fa91050ff819330f03ceffca319964d0ff7843df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 42/62] fix: PMV point count matches the points when a design
 has other commands

---
 pyembroidery/PmvWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 1c4fbb3..9dbb970 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -47,14 +47,13 @@ def write(pattern, f, settings=None):
 
     write_int_16le(f, point_count)
     write_int_16le(f, point_count * 2)
-    point_index = -1
+    point_index = 0
     max_x = -200000000
     min_x = +200000000
     max_y = -200000000
     min_y = +200000000
     xx = 0
     for stitch in pattern.stitches:
-        point_index += 1
         if point_index >= point_count:
             break
         data = stitch[2] & COMMAND_MASK
@@ -67,6 +66,7 @@ def write(pattern, f, settings=None):
         x = int(round(x - xx))
         xx += x
         if data == STITCH or data == JUMP:
+            point_index += 1
             if xx > max_x:
                 max_x = xx
             if xx < min_x:
-- 
2.43.0


From 228d8dba4514ccf39d04fd175428b537fadaa73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 43/62] fix: PMV jumps are limited to what a point can hold

---
 pyembroidery/PmvWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 9dbb970..23b17e9 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .WriteHelper import write_int_8, write_int_16le, write_string_utf8
 
 MAX_STITCH_DISTANCE = 70
+MAX_JUMP_DISTANCE = 70  # Jumps are stored as points, too.
 MAX_PERMITTED_STITCHES = 100
 
 
-- 
2.43.0


From 5d45b29f3c666550b2373f516f4dfc771c4f0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 44/62] Revert "fix: the last line of a G-code file needs no
 line end"

This reverts commit fc3330afaa465464c569d6b5b0145c1ed4f44b53.
---
 pyembroidery/GcodeReader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index c209b2f..e53e4f9 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -6,18 +6,16 @@ def parse(f):
     code = ""
     value = ""
     command_map = {}
-    ended = False
     ord_a = ord("a")
     ord_A = ord("A")
     ord_z = ord("z")
     ord_Z = ord("Z")
     while True:
         byte = f.read(1)
-        if byte is None or len(byte) == 0:
-            if ended:
-                break
-            ended = True
-            byte = b"\n"  # The last line ends with the file.
+        if byte is None:
+            break
+        if len(byte) == 0:
+            break
         is_end = byte == b"\n" or byte == b"\r"
         if comment is not None:
             if byte == b")" or is_end:
-- 
2.43.0


From bbc67f948485c9411b18735d9570abcc9b3a340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 45/62] fix: DST writer turned SLOW and FAST commands into
 needle penetrations

---
 pyembroidery/DstWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index be65a1c..6b9b480 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -192,6 +192,8 @@ def write(pattern, f, settings=None):
         x = stitch[0]
         y = stitch[1]
         data = stitch[2] & COMMAND_MASK
+        if data == SLOW or data == FAST:
+            continue  # DST has no speeds, any record would be a stitch.
         dx = int(round(x - xx))
         dy = int(round(y - yy))
 
-- 
2.43.0


From 28c704ce355201a10c226e5a7c1362aee036fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 46/62] fix: G-code writer dropped the rest of the design at a
 command it has no word for

---
 pyembroidery/GcodeWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index e9b3a10..b0cadad 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -105,4 +105,4 @@ def write(pattern, f, settings=None):
         elif command == END:
             write_string_utf8(f, "M30\n")
             continue
-        break  # Code shouldn't reach this point.
+        continue  # G-code has no such command.
-- 
2.43.0


From 27b3cfbb964de1ec42d8b8b7f0a56dc5f08ddaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 47/62] fix: U01 writer lost the stitch at which the speed
 changes when it does not move or both speeds were asked for

---
 pyembroidery/U01Writer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index cb8a57f..4f413d4 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -43,9 +43,11 @@ def write(pattern, f, settings=None):
         yy += dy
         if data == SLOW:
             trigger_slow = True
+            trigger_fast = False
             continue
         if data == FAST:
             trigger_fast = True
+            trigger_slow = False
             continue
         cmd = 0x80
         if dy >= 0:
@@ -55,14 +57,15 @@ def write(pattern, f, settings=None):
         delta_x = abs(dx)
         delta_y = abs(dy)
         if data == STITCH:
-            if trigger_fast:
+            moved = dx != 0 or dy != 0  # without a move only the speed is read
+            if trigger_fast and moved:
                 trigger_fast = False
                 cmd |= 0x02
-            if trigger_slow:
+            if trigger_slow and moved:
                 trigger_slow = False
                 cmd |= 0x04
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
-        elif data == JUMP:  # If you did both FAST, SLOW, and JUMP, you'd get a trim.
+        elif data == JUMP:
             if trigger_fast:
                 trigger_fast = False
                 cmd |= 0x02
-- 
2.43.0


From e036dc9ff92b632d572b4ab8fd50ada8dff9bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 48/62] fix: VP3 writer lost the moves before a SLOW or FAST
 command

---
 pyembroidery/Vp3Writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 03dc1f9..3511422 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -251,6 +251,9 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
             continue
+        elif flags != STITCH:
+            # VP3 has no such command, the move to the next stitch stays whole.
+            continue
         dx = int(x - last_x)
         dy = int(y - last_y)
         last_x += dx
-- 
2.43.0


From b6ba1fd4711fc0c1c1b06f540ea0bde3588eb96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 49/62] fix: VP3 writer cut stitch lengths short, moving a
 design a little at every save

---
 pyembroidery/Vp3Writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 3511422..eb987ee 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -254,8 +254,8 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
         elif flags != STITCH:
             # VP3 has no such command, the move to the next stitch stays whole.
             continue
-        dx = int(x - last_x)
-        dy = int(y - last_y)
+        dx = int(round(x - last_x))
+        dy = int(round(y - last_y))
         last_x += dx
         last_y += dy
         if flags == STITCH:
-- 
2.43.0


From f5cc2fb0326a04ee0863dfbd6ecd27164d38027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 50/62] fix: adding a design to one without stitches or threads
 raised IndexError

---
 pyembroidery/EmbPattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 4be3625..9e01226 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -623,7 +623,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -644,7 +644,9 @@ class EmbPattern:
 
         threadlist = [copy.copy(t) for t in pattern.threadlist]
         if len(threadlist) > 0:
-            if threadlist[0] == self.threadlist[-1]:
+            if len(self.threadlist) == 0:
+                self.threadlist.extend(threadlist)
+            elif threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(threadlist[1:])
             else:
                 self.threadlist.extend(threadlist)
-- 
2.43.0


From 22b6b7e797c9c5586f624da76e77bb1474bcbc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 51/62] fix: add_pattern ignored a scale given as sy only

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9e01226..140e60b 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -631,7 +631,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
-- 
2.43.0


From e77611a938967034e7a202d9e0cd0e34ba6556b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 52/62] fix: merging jumps kept only the first break, later
 gaps could be sewn

---
 pyembroidery/EmbPattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 140e60b..6c1aabf 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -866,6 +866,7 @@ class EmbPattern:
                 new_pattern.add_command(STITCH_BREAK)
                 stitch_break = True
                 continue
+            stitch_break = False
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From 022eb734d6d9ab67a02be734a3943cc7c49d8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 53/62] fix: GenericWriter never ended the sections open at the
 end of the design

---
 pyembroidery/GenericWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 22686c1..2867cc8 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -571,4 +571,5 @@ class GenericWriter:
         self.close_block()
         self.close_color()
         self.close_document()
+        self.write_closes()
         self.close_pattern()
-- 
2.43.0


From 0d42bb01a6752fdb1fa1e9a751814fc878276565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 54/62] fix: a translate option with x and y attributes raised
 instead of being used

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 7fa75ee..f48347f 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -50,7 +50,7 @@ class Transcoder:
         if translate is not None:
             try:
                 self.matrix.post_translate(translate[0], translate[1])
-            except IndexError:
+            except (IndexError, TypeError):
                 try:
                     self.matrix.post_translate(translate.x, translate.y)
                 except AttributeError:
-- 
2.43.0


From f6a0e1632e0be60ed1a229adfaad94dbc2bc460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 55/62] fix: G-code comments begun by a semicolon ended at a
 closing bracket

---
 pyembroidery/GcodeReader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index e53e4f9..b21e80a 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -3,6 +3,7 @@ import re
 
 def parse(f):
     comment = None
+    bracketed = False
     code = ""
     value = ""
     command_map = {}
@@ -18,7 +19,7 @@ def parse(f):
             break
         is_end = byte == b"\n" or byte == b"\r"
         if comment is not None:
-            if byte == b")" or is_end:
+            if (byte == b")" and bracketed) or is_end:
                 command_map["comment"] = comment
                 comment = None
                 if not is_end:
@@ -31,9 +32,11 @@ def parse(f):
                 continue
         if byte == b"(":
             comment = ""
+            bracketed = True
             continue
         elif byte == b";":
             comment = ""
+            bracketed = False  # Only the line end closes this one.
             continue
         elif byte == b"\t":
             continue
-- 
2.43.0


From d0018b04c588b7f43c71f530d35b7b55b74df984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 56/62] fix: the checksum of a G-code line was read as digits
 of its last word

---
 pyembroidery/GcodeReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index b21e80a..022c7df 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -34,7 +34,7 @@ def parse(f):
             comment = ""
             bracketed = True
             continue
-        elif byte == b";":
+        elif byte == b";" or byte == b"*":  # Comment, checksum of the line.
             comment = ""
             bracketed = False  # Only the line end closes this one.
             continue
-- 
2.43.0


From a71d3f596cb9842010f2a948cc086e4650feb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 57/62] fix: PES segments of more than 65535 points overflowed
 their point count

---
 pyembroidery/PesWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index ca61193..9db1030 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -342,6 +342,9 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
             continue
         elif command == STITCH:
             for stitch in command_block:
+                if len(block) == 0xFFFF:  # The point count of a segment has 16 bits.
+                    yield (block, color_code, 0)
+                    block = []
                 stitched_x = stitch[0]
                 stitched_y = stitch[1]
                 block.append([stitched_x - adjust_x, stitched_y - adjust_y])
-- 
2.43.0


From 4548c1f0df8477ca1a651c9a10915e0dc47f343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 58/62] fix: a colour break before the first stitch shifted the
 threads of later changes

---
 pyembroidery/EmbEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index f48347f..03ffe5f 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -118,6 +118,8 @@ class Transcoder:
                 yield flags, thread, needle, order, None
             elif flags == NEEDLE_SET or flags == COLOR_CHANGE or flags == COLOR_BREAK:
                 yield flags, thread, needle, order, current_index
+                if flags == COLOR_BREAK and current_index == 0:
+                    continue  # Before any stitching the break begins no block.
                 current_index += 1
 
     def build_thread_change_sequence(self):
-- 
2.43.0


From 82bea9a4eae9a2d51f4d2172951019c6ce269dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 59/62] fix: colour breaks and ties were lost next to stitches
 carrying thread numbers

---
 pyembroidery/EmbEncoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 03ffe5f..8b523f6 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -382,7 +382,7 @@ class Transcoder:
         source = self.source_pattern.stitches
         for pos in range(self.position, len(source)):
             stitch = source[pos]
-            flags = stitch[2]
+            flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 return True
             elif flags == NEEDLE_AT:
@@ -432,7 +432,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
@@ -451,7 +451,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position + 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
-- 
2.43.0


From a1c96a70f8d4a04767f506c008645aaeaf968f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 60/62] fix: PEC icons and PMV points lost stitches carrying
 thread numbers

---
 pyembroidery/PecWriter.py | 2 +-
 pyembroidery/PmvWriter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 832e4a9..4144eab 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -109,7 +109,7 @@ def write_pec_graphics(pattern, f, extends):
     f.write(bytes(bytearray(blank)))
 
     for block in pattern.get_as_colorblocks():
-        stitches = [s for s in block[0] if s[2] == STITCH]
+        stitches = [s for s in block[0] if s[2] & COMMAND_MASK == STITCH]
         blank = get_blank()  # [ 0 ] * 6 * 38
         draw_scaled(extends, stitches, blank, 6)
         f.write(bytes(bytearray(blank)))
diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 23b17e9..60dc01f 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -13,7 +13,7 @@ def write(pattern, f, settings=None):
     min_y = +200000000
     point_count = 0
     for stitch in pattern.stitches:
-        data = stitch[2]
+        data = stitch[2] & COMMAND_MASK
         x = stitch[0]
         y = -stitch[1]
         if data == STITCH or data == JUMP:
-- 
2.43.0


From e03a7b4b77dc3fd24ba806ba132eb834688c16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 61/62] fix: interpolated trims forgot the thread was cut at
 jumps carrying thread numbers

---
 pyembroidery/EmbPattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 6c1aabf..e33f2a5 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -831,13 +831,13 @@ class EmbPattern:
                 trimmed = False
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
-            if trimmed or stitch[2] != JUMP:
+            if trimmed or command != JUMP:
                 new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
                 continue
             while i < ie and command == JUMP:
                 i += 1
                 stitch = self.stitches[i]
-                command = stitch[2]
+                command = stitch[2] & COMMAND_MASK
                 count += 1
             if command != JUMP:
                 i -= 1
-- 
2.43.0


From 4c126efd3e7a7ef7f87316bc6c23d1ff57295ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 62/62] fix: an end command carrying numbers was kept when
 another design was added

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index e33f2a5..7c83882 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -623,7 +623,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if len(self.stitches) > 0 and self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
-- 
2.43.0

