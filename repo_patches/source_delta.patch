From 7e7113364b6a20cef33c6559a0a9e8484c062bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 01/23] fix: write XXX stitches of exactly 124 units in the
 short form

The writer declares 124 as its maximum stitch length but wrote steps of exactly
+-124 in the long (0x7D) form, which reads back as a jump.
---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..c27e423 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -124 <= dx <= 124 and -124 <= dy <= 124:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From a22f80b39e1271df85268196e584b52e20c22f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 02/23] fix: a stitch after STITCH_BREAK ends the dropping of
 jumps even when it starts a new block

---
 pyembroidery/EmbEncoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..c4fbd48 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -358,6 +358,7 @@ class Transcoder:
         if self.order_index == -1:
             self.next_change_sequence()
         self.state_trimmed = False
+        self.state_jumping = False
 
     def add_thread_change(self, command, thread=None, needle=None, order=None):
         x = self.needle_x
-- 
2.43.0


From 20a0699e8ea8381208131b9a7e83c66c6c48bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 03/23] fix: a @= b on matrices leaves the product in a, not
 None

---
 pyembroidery/EmbMatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index a8c69ab..363768d 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -22,6 +22,7 @@ class EmbMatrix:
 
     def __imatmul__(self, other):
         self.m = EmbMatrix.matrix_multiply(self.m, other.m)
+        return self
 
     def __str__(self):
         return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
-- 
2.43.0


From 0e3517ba2e90d0970ca4014b534cd35bd04bd678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 04/23] fix: matrices with the same entries are equal, whether
 kept in a list or a tuple

---
 pyembroidery/EmbMatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index 363768d..9705d0d 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -12,7 +12,7 @@ class EmbMatrix:
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self.m == other.m
+        return list(self.m) == list(other.m)
 
     def __matmul__(self, other):
         return EmbMatrix(EmbMatrix.matrix_multiply(self.m, other.m))
-- 
2.43.0


From 4ebf35b07a882c40b354cf3425c56a3c47f232bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 05/23] fix: str() of a matrix works after it was multiplied or
 inverted

---
 pyembroidery/EmbMatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index 9705d0d..7f07e3f 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -25,7 +25,7 @@ class EmbMatrix:
         return self
 
     def __str__(self):
-        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
+        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % tuple(self.m)
 
     def get_matrix(self):
         return self.m
-- 
2.43.0


From bb31ed67536f7a9d874333757ada76ab16441ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 06/23] fix: changing a copied pattern leaves the original's
 commands alone

---
 pyembroidery/EmbPattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..cbc735d 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -87,7 +87,7 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
+                self.stitches = [stitch[:] for stitch in arg0.stitches]
                 self.threadlist = arg0.threadlist[:]
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
@@ -206,7 +206,7 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
+        emb_pattern.stitches = [stitch[:] for stitch in self.stitches]
         emb_pattern.threadlist = self.threadlist[:]
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
-- 
2.43.0


From 6e0a8e77a6502d8af066fdad5db7238c1bcab0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 07/23] fix: adding a pattern to another leaves the added
 pattern's commands alone

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index cbc735d..a17eadf 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -641,7 +641,7 @@ class EmbPattern:
                 self.threadlist.extend(pattern.threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([stitch[:] for stitch in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From 4ba60218eeea447d1e9c655b6358aefa40e121dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 08/23] fix: a pattern can be added to an empty pattern

---
 pyembroidery/EmbPattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index a17eadf..7e31770 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -615,7 +615,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -635,7 +635,9 @@ class EmbPattern:
         self.fix_color_count()
 
         if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
+            if len(self.threadlist) == 0:
+                self.threadlist.extend(pattern.threadlist)
+            elif pattern.threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(pattern.threadlist[1:])
             else:
                 self.threadlist.extend(pattern.threadlist)
-- 
2.43.0


From 88925b3fd9219a3c73e5d7243f2383665a9f5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 09/23] fix: add_pattern scales when only sy is given

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7e31770..b2a0bc4 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -623,7 +623,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
-- 
2.43.0


From 879619df1879afca315386bfbdd89840e645e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 10/23] fix: adding an empty list to a pattern leaves the
 pattern, not None

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index b2a0bc4..306aebb 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -162,7 +162,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From 1de611c81a3bb1547517f7ae8a640645510a9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 11/23] fix: saving without encoding leaves the caller's
 pattern alone

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 306aebb..2a1f8c5 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1632,6 +1632,8 @@ class EmbPattern:
                 except AttributeError:
                     pass
             pattern = pattern.get_normalized_pattern(settings)
+        else:
+            pattern = pattern.copy()  # writers may change what they write
 
         if EmbPattern.is_str(stream):
             text_mode = False
-- 
2.43.0


From ecd3bea8650fd9bbfaac2e37d5c9b42d2a9bfeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 12/23] fix: copy.deepcopy of a pattern works and copies its
 threads

---
 pyembroidery/EmbPattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 2a1f8c5..021b9f4 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1,4 +1,5 @@
 import os
+from copy import deepcopy
 
 import pyembroidery.A10oReader as A10oReader
 import pyembroidery.A100Reader as A100Reader
@@ -145,8 +146,11 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
-        return self.copy()
+    def __deepcopy__(self, memo):
+        emb_pattern = self.copy()
+        emb_pattern.threadlist = deepcopy(self.threadlist, memo)
+        emb_pattern.extras = deepcopy(self.extras, memo)
+        return emb_pattern
 
     def __iadd__(self, other):
         if isinstance(other, EmbPattern):
-- 
2.43.0


From 41202335baf3aa3c256791c50c5e164d57c5612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 13/23] fix: the spx format lists its extensions as a tuple,
 like the others

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 021b9f4..228287f 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1209,7 +1209,7 @@ class EmbPattern:
             {
                 "description": "Pfaff Embroidery Format",
                 "extension": "spx",
-                "extensions": ("spx"),
+                "extensions": ("spx",),
                 "mimetype": "application/x-spx",
                 "category": "embroidery",
                 "reader": SpxReader,
-- 
2.43.0


From c2b59980a3674eb5475c2201a0d209f2b1dcf84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 14/23] fix: reading a Barudan DAT file with needle changes no
 longer raises AttributeError

---
 pyembroidery/DatReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 4494278..1ed8e88 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -74,7 +74,7 @@ def read_barudan_dat(f, out):
         if 0x09 <= command <= 0x17:
             # C01 - C14
             needle = command - 0x08
-            out.needle_out(needle)
+            out.needle_change(needle)
             if dx != 0 or dy != 0:
                 out.move(dx, dy)
             continue
-- 
2.43.0


From 527b2944bfd231d0ef92253a70937b3cc58d6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 15/23] fix: MIT files end with one END, which nothing follows

---
 pyembroidery/MitReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/MitReader.py b/pyembroidery/MitReader.py
index 1c89114..b1bcd34 100644
--- a/pyembroidery/MitReader.py
+++ b/pyembroidery/MitReader.py
@@ -32,7 +32,7 @@ def read(f, out, settings=None):
             if previous_ctrl == 0b111:
                 out.color_change()
         elif ctrl == 0b0000:
-            out.end()  # 0 appears at end.
+            break  # 0 appears at end.
         else:
             out.stitch(x, y)
         previous_ctrl = ctrl
-- 
2.43.0


From b821ce4cd2b44ca0134d1a0f918e2c2d26818087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 16/23] fix: PMV files cut short end with END

---
 pyembroidery/PmvReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PmvReader.py b/pyembroidery/PmvReader.py
index d1443d9..3a6aabd 100644
--- a/pyembroidery/PmvReader.py
+++ b/pyembroidery/PmvReader.py
@@ -27,7 +27,7 @@ def read_pmv_stitches(f, out, settings=None):
         stitch_count = read_int_16le(f)
         block_length = read_int_16le(f)
         if block_length is None:
-            return
+            break
         if block_length >= 256:
             break
         if stitch_count == 0:
-- 
2.43.0


From 6bff93056605e4cfa568e41c1257f2ee34bf83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 17/23] fix: SPX files end with END

---
 pyembroidery/SpxReader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/SpxReader.py b/pyembroidery/SpxReader.py
index b0bf437..56cde11 100644
--- a/pyembroidery/SpxReader.py
+++ b/pyembroidery/SpxReader.py
@@ -15,3 +15,4 @@ def read(f, out, settings=None):
         if len(b) != 2:
             break
         out.stitch(dx, dy)
+    out.end()
-- 
2.43.0


From 4c64cbb3fc6b22361c6e359d359761963eb88216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 18/23] fix: g-code designs end with one END, at the end of the
 program or of the file

---
 pyembroidery/GcodeReader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 9c20dc1..ee1f5c1 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -94,6 +94,7 @@ def read(f, out, settings=None):
         if "m" in gc:
             v = gc["m"]
             if v == 30 or v == 2:
-                out.end()
+                break
             elif v == 0 or v == 1:
                 out.color_change()
+    out.end()
-- 
2.43.0


From d7f4b3006db4abf38102bc7e389911c0cc4f3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 19/23] fix: TBF files whose name is not UTF-8 can be read

---
 pyembroidery/TbfReader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TbfReader.py b/pyembroidery/TbfReader.py
index 315f2ae..74600bd 100644
--- a/pyembroidery/TbfReader.py
+++ b/pyembroidery/TbfReader.py
@@ -4,8 +4,9 @@ from .ReadHelper import read_int_8, read_int_24be, signed8, read_string_8
 
 def read(f, out, settings=None):
     f.seek(0x83, 0)
-    name = read_string_8(f, 0x10).strip()
-    out.metadata("name", name)
+    name = read_string_8(f, 0x10)
+    if name is not None:
+        out.metadata("name", name.strip())
     f.seek(0x10A, 0)
     thread_order = list(f.read(0x100))
     f.seek(0x20E, 0)
-- 
2.43.0


From f4bcc0d2e5e2bb0b39fa7ef2b34949522321dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 20/23] fix: HUS and PCM color numbers beyond the palette no
 longer raise IndexError

---
 pyembroidery/HusReader.py | 2 +-
 pyembroidery/PcmReader.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/HusReader.py b/pyembroidery/HusReader.py
index ebe5867..c401f43 100644
--- a/pyembroidery/HusReader.py
+++ b/pyembroidery/HusReader.py
@@ -24,7 +24,7 @@ def read(f, out, settings=None):
     hus_thread_set = get_thread_set()
     for i in range(0, number_of_colors):
         index = read_int_16le(f)
-        out.add_thread(hus_thread_set[index])
+        out.add_thread(hus_thread_set[index % len(hus_thread_set)])
     f.seek(command_offset, 0)
     command_compressed = bytearray(f.read(x_offset - command_offset))
     f.seek(x_offset, 0)
diff --git a/pyembroidery/PcmReader.py b/pyembroidery/PcmReader.py
index 3f70aa2..5fa5189 100644
--- a/pyembroidery/PcmReader.py
+++ b/pyembroidery/PcmReader.py
@@ -30,7 +30,7 @@ def read_pc_file(f, out, settings=None):
         return  # File is blank.
     for i in range(0, colors):
         color_index = read_int_16be(f)
-        thread = pcm_threads[color_index]
+        thread = pcm_threads[color_index % len(pcm_threads)]
         out.add_thread(thread)
 
     stitch_count = read_int_16be(f)
-- 
2.43.0


From dd3468d6cb8190fbedffde9efb197bd921298114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 21/23] fix: PEC, PHB, PHC and JEF color numbers of the
 palette's empty entry no longer raise AttributeError

---
 pyembroidery/JefReader.py | 4 ++--
 pyembroidery/PecReader.py | 5 +++--
 pyembroidery/PhbReader.py | 3 ++-
 pyembroidery/PhcReader.py | 3 ++-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index dd884d5..29c17ba 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -60,12 +60,12 @@ def read(f, out, settings=None):
     f.seek(88, 1)
 
     for i in range(0, count_colors):
-        index = abs(read_int_32le(f))
+        index = abs(read_int_32le(f)) % len(jef_threads)
         if index == 0:
             # Patch: If we have color 0. Go ahead and set that to None.
             out.threadlist.append(None)
         else:
-            out.add_thread(jef_threads[index % len(jef_threads)])
+            out.add_thread(jef_threads[index])
 
     f.seek(stitch_offset, 0)
     read_jef_stitches(f, out, settings)
diff --git a/pyembroidery/PecReader.py b/pyembroidery/PecReader.py
index 8d24360..f182eac 100644
--- a/pyembroidery/PecReader.py
+++ b/pyembroidery/PecReader.py
@@ -1,3 +1,4 @@
+from .EmbThread import EmbThread
 from .EmbThreadPec import get_thread_set
 from .ReadHelper import read_int_8, read_int_24le, read_string_8
 
@@ -57,7 +58,7 @@ def process_pec_colors(colorbytes, out, values):
     thread_set = get_thread_set()
     max_value = len(thread_set)
     for byte in colorbytes:
-        thread_value = thread_set[byte % max_value]
+        thread_value = thread_set[byte % max_value] or EmbThread()
         out.add_thread(thread_value)
         values.append(thread_value)
 
@@ -74,7 +75,7 @@ def process_pec_table(colorbytes, out, chart, values):
             if len(chart) > 0:
                 thread_value = chart.pop(0)
             else:
-                thread_value = thread_set[color_index]
+                thread_value = thread_set[color_index] or EmbThread()
             thread_map[color_index] = thread_value
         out.add_thread(thread_value)
         values.append(thread_value)
diff --git a/pyembroidery/PhbReader.py b/pyembroidery/PhbReader.py
index 274e7a5..864f411 100644
--- a/pyembroidery/PhbReader.py
+++ b/pyembroidery/PhbReader.py
@@ -1,3 +1,4 @@
+from .EmbThread import EmbThread
 from .EmbThreadPec import get_thread_set
 from .PecReader import read_pec_stitches
 from .ReadHelper import read_int_8, read_int_16le, read_int_32le
@@ -9,7 +10,7 @@ def read(f, out, settings=None):
     color_count = read_int_16le(f)
     threadset = get_thread_set()
     for i in range(0, color_count):
-        out.add_thread(threadset[read_int_8(f) % len(threadset)])
+        out.add_thread(threadset[read_int_8(f) % len(threadset)] or EmbThread())
 
     file_offset = 0x52
 
diff --git a/pyembroidery/PhcReader.py b/pyembroidery/PhcReader.py
index c9b014f..76d8b61 100644
--- a/pyembroidery/PhcReader.py
+++ b/pyembroidery/PhcReader.py
@@ -1,3 +1,4 @@
+from .EmbThread import EmbThread
 from .EmbThreadPec import get_thread_set
 from .PecReader import read_pec_graphics, read_pec_stitches
 from .ReadHelper import read_int_8, read_int_16le, read_int_32le
@@ -14,7 +15,7 @@ def read(f, out, settings=None):
         color_index = read_int_8(f)
         if color_index is None:
             return  # File terminated before expected end.
-        out.add_thread(threadset[color_index % len(threadset)])
+        out.add_thread(threadset[color_index % len(threadset)] or EmbThread())
     byte_size = pec_graphic_byte_stride * pec_graphic_icon_height
     read_pec_graphics(
         f, out, byte_size, pec_graphic_byte_stride, color_count, out.threadlist
-- 
2.43.0


From d57daa6bbf6fcc5c3e953d401a177cb535534949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 22/23] fix: DST thread lines with less than three fields no
 longer raise IndexError

---
 pyembroidery/DstReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DstReader.py b/pyembroidery/DstReader.py
index 31bca02..9a073be 100644
--- a/pyembroidery/DstReader.py
+++ b/pyembroidery/DstReader.py
@@ -41,7 +41,7 @@ def process_header_info(out, prefix, value):
         out.metadata("copyright", value)
     elif prefix == "TC":
         values = [x.strip() for x in value.split(",")]
-        out.add_thread({"hex": values[0], "description": values[1], "catalog": values[2]})
+        out.add_thread(dict(zip(("hex", "description", "catalog"), values)))
     else:
         out.metadata(prefix, value)
 
-- 
2.43.0


From 78e4ee20e5ede870297883ce14017755dbeb6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 23/23] fix: JEF files with more color changes than colors no
 longer raise IndexError

---
 pyembroidery/JefReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index 29c17ba..336a148 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -24,7 +24,7 @@ def read_jef_stitches(f, out, settings=None):
             continue
         if ctrl == 0x01:
             # PATCH: None means stop since it was color #0
-            if out.threadlist[color_index] is None:
+            if color_index < len(out.threadlist) and out.threadlist[color_index] is None:
                 out.stop(0, 0)
                 del out.threadlist[color_index]
             else:
-- 
2.43.0

