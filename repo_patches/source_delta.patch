From 249d447da6ec58bad8ec7dc630bed63099f9f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 01/58] fix: don't discard the glyph data when a VfbGlyph is
 made for an existing entry

---
 src/vfbLib/vfb/glyph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..030ce88 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,9 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            # Only a new glyph starts out empty, don't discard existing data
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From 5b63c36b3b4a9aff2ea296d8f63c07e98473279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 02/58] fix: compute the entry header from the current data, so
 that it can't go stale

---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..744eeca 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From 87f0ebcac6a261d012a3e0a1b09fa28b0dd02fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 03/58] fix: stop at the end of a truncated stream instead of
 reading empty entries forever

---
 src/vfbLib/vfb/entry.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 744eeca..0c50abc 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 from vfbLib.compilers.base import BaseCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
-from vfbLib.helpers import hexStr, int32_size
+from vfbLib.helpers import hexStr, int16_size, int32_size
 from vfbLib.parsers.base import BaseParser, StreamReader
 from vfbLib.typing import EntryDict
 
@@ -151,17 +151,28 @@ class VfbEntry(StreamReader):
         """
         Read an entry from the stream and return its data size.
         """
-        raw_id = self.read_uint16()
+        raw_id = int.from_bytes(self._read_exactly(int16_size), byteorder="little")
         self.id = raw_id & ~0x8000
 
         if raw_id & 0x8000:
             # Uses uint32 for data length
-            num_bytes = self.read_uint32()
+            size_length = int32_size
         else:
             # Uses uint16 for data length
-            num_bytes = self.read_uint16()
+            size_length = int16_size
 
-        return num_bytes
+        return int.from_bytes(self._read_exactly(size_length), byteorder="little")
+
+    def _read_exactly(self, size: int) -> bytes:
+        """
+        Read `size` bytes from the stream. Raises EOFError if the stream ends before.
+        """
+        data = self.stream.read(size)
+        if len(data) < size:
+            if data:
+                logger.error("Unexpected end of data in entry, the file is truncated.")
+            raise EOFError
+        return data
 
     def as_dict(self, minimize=True) -> EntryDict:
         d = EntryDict(key=str(self.key))
@@ -259,4 +270,4 @@ class VfbEntry(StreamReader):
             # In this case it can be calculated from the number of masters:
             size = 2 * int32_size + self.vfb.num_masters * 2
 
-        self.data = self.stream.read(size)
+        self.data = self._read_exactly(size)
-- 
2.43.0


From 8ae3e876cfb1a98d8f8e898ec1d6937187718518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 04/58] fix: serialize before opening the output file, so that
 an error doesn't destroy it

---
 src/vfbLib/vfb/vfb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..69d5e91 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -1,5 +1,6 @@
 import logging
 from collections.abc import Iterable
+from io import BytesIO
 from pathlib import Path
 from time import time
 from typing import TYPE_CHECKING, Any
@@ -316,8 +317,12 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # Serialize to memory first, so that an error in an entry doesn't leave an
+        # existing file truncated.
+        buffer = BytesIO()
+        self.write_bytes(buffer)
         with open(out_path, "wb") as vfb:
-            self.write_bytes(vfb)
+            vfb.write(buffer.getvalue())
 
     def write_bytes(self, buffer: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From 3b71b975e5c55daf28aae898cc2bb304a71f12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 05/58] fix: clear all state derived from the previous file
 when a Vfb is read again

---
 src/vfbLib/vfb/vfb.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 69d5e91..0e7b5bc 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -140,6 +140,18 @@ class Vfb:
         self.header = VfbHeader()
         self.entries = []
 
+        # Also forget everything that was derived from the previous data
+        self.encoding = "utf-8"
+        self._glyphs = {}
+        self.glyph_order = []
+        self.info = VfbInfo(vfb=self)
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.ps_hinting_options = None
+        self.any_errors = False
+
     def compile(self) -> None:
         """
         Compile the header and all entries in the VFB.
-- 
2.43.0


From cb3d33d40ec97f16d9dd3368b22204bf57386945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 06/58] fix: compile entries with an unknown ID that have been
 decompiled by the fallback parser

---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 0c50abc..a8679e6 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int16_size, int32_size
@@ -21,6 +21,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +143,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From ff4a85dd54e2cfb5d61454c13c60eab59da887e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 07/58] fix: don't loop forever on TrueType Info options that
 are negative as a signed value

---
 src/vfbLib/parsers/truetype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..98fcbd6 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList((value >> 16) & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
-- 
2.43.0


From 53d5264f40e223b733b25eb24753a1d7079277b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 08/58] fix: keep TrueType Info options that have no name when
 compiling

---
 src/vfbLib/compilers/truetype.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..25e3c6c 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -26,8 +26,13 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
         for k, v in tt_settings.items():
             if v in options:
                 option_bits.append(k)
+        # Bits without a name are stored by number
+        option_bits.extend(int(v) for v in set(options) if v.isdigit())
 
         value += intListToBinary(option_bits) << 16
+        if value > 0x7FFFFFFF:
+            # It is stored as a signed value
+            value -= 0x100000000
     return value
 
 
-- 
2.43.0


From 7f6a93f205ac35205ca86856d1e97abb253e9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 09/58] fix: compile unknown export option bits

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..60dbfe9 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -9,9 +9,9 @@ if TYPE_CHECKING:
 
 
 class ExportOptionsCompiler(BaseCompiler):
-    def _compile(self, data: list[str]) -> None:
+    def _compile(self, data: list[str | int]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        options = [rev.get(k, k) for k in data]
         self.write_uint16(intListToBinary(options))
 
 
-- 
2.43.0


From c80eeb9cd8de290603872dc107cc5683cc1aaad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 10/58] fix: compile unknown mapping modes

---
 src/vfbLib/compilers/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..deafa1e 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -270,8 +270,9 @@ mapping_modes = {
 class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
+        mapping_mode = data["mapping_mode"]
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        self.write_value(int(rev_map.get(mapping_mode, mapping_mode)))
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
-- 
2.43.0


From ae4843a423c59e6f46ab6bb129dc5fb79004d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 11/58] fix: write signed PCLT values as signed

---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From b3b95bdc1de7480fe0555ef08f0ee537f11cf3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 12/58] fix: invert bitmaps correctly when compiling for the
 windows platform

---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From fa134a1fc6d1d4784380c6d8fb5ab84db2de6c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 13/58] fix: round the guide angle instead of truncating it, so
 that it doesn't change on each save

---
 src/vfbLib/compilers/guides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..70d8fac 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,7 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
 
 
-- 
2.43.0


From 02c1170057ba0544be2029132e728ed549a474b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 14/58] fix: round primary instance values instead of
 truncating them

---
 src/vfbLib/compilers/mm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From d6b5437059290f9e46efbb29b8648de2de528d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 15/58] fix: parse OpenType feature code that consists of empty
 lines only

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..018367a 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From 59372feac597c6205cfcba5798fb37dd712ba7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 16/58] fix: compile font options with an unknown key

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 60dbfe9..7ce04dd 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -19,8 +19,8 @@ class FontOptionsCompiler(BaseCompiler):
     def _compile(self, data: "FontOptionsDict") -> None:
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
-            raw_key = rev.get(k)
-            assert raw_key is not None
+            # Unknown keys are stored by number
+            raw_key = rev[k] if k in rev else int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From 1cabb93144e318a68e1a396eaf9926026e750fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 17/58] fix: compile MM Kern Pair entries from the structure
 that the parser returns

---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From ee2d8a111ea25a6c5e47a4ac054311d996a54bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 18/58] fix: parse block markers to the hex string that their
 compiler expects

---
 src/vfbLib/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/constants.py b/src/vfbLib/constants.py
index 1281a67..3878e07 100644
--- a/src/vfbLib/constants.py
+++ b/src/vfbLib/constants.py
@@ -150,8 +150,8 @@ parser_classes = {
     F.EncodingDefault: ("Encoding Default", GlyphEncodingParser, GlyphEncodingCompiler),
     F.Encoding: ("Encoding", GlyphEncodingParser, GlyphEncodingCompiler),
     F.MMEncType: ("MM Encoding Type", Int16Parser, Int16Compiler),
-    F.BlockNamesEnd: ("Block Names End", StringParser, HexStringCompiler),
-    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, HexStringCompiler),
+    F.BlockNamesEnd: ("Block Names End", BaseParser, HexStringCompiler),
+    F.BlockFontInfoStart: ("Block Font Info Start", BaseParser, HexStringCompiler),
     F.font_name: ("font_name", StringParser, StringCompiler),
     F.MasterCount: ("Master Count", Int16Parser, Int16Compiler),
     F.weight_vector: ("weight_vector", DoubleListParser, DoubleListCompiler),
-- 
2.43.0


From b770a8a24fa6ddabff5ce6d91a04b60a17a3b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 19/58] fix: parse bitmaps with a width of 0

---
 src/vfbLib/parsers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..3c285e1 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -66,7 +66,7 @@ class BaseBitmapParser(BaseParser):
             data = [~b + 0x100 for b in data]
 
         # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        bytes_per_row = ((w + 15) // 16) * 2 or len(data) or 1
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From f416ce5f6f56ebd3901f629a449212a5a8631749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 20/58] fix: raise an error when reading integers beyond the
 end of the data

---
 src/vfbLib/parsers/base.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..a9076b0 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -37,6 +37,13 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
+    def _read_int(self, size: int, signed: bool) -> int:
+        data = self.stream.read(size)
+        if len(data) < size:
+            # Don't make up values beyond the end of the data
+            raise EOFError
+        return int.from_bytes(data, byteorder="little", signed=signed)
+
     def read_double(self) -> float:
         """
         Return a double-precision float from the stream.
@@ -65,9 +72,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
-        )
+        return self._read_int(int8_size, signed=True)
 
     def read_int16(self) -> int:
         """
@@ -76,9 +81,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
-        )
+        return self._read_int(int16_size, signed=True)
 
     def read_int32(self) -> int:
         """
@@ -87,9 +90,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
-        )
+        return self._read_int(int32_size, signed=True)
 
     def read_str(self, size: int) -> str:
         """
@@ -134,9 +135,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
-        )
+        return self._read_int(int8_size, signed=False)
 
     def read_uint16(self) -> int:
         """
@@ -145,9 +144,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
-        )
+        return self._read_int(int16_size, signed=False)
 
     def read_uint32(self) -> int:
         """
@@ -156,9 +153,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
-        )
+        return self._read_int(int32_size, signed=False)
 
     def read_value(self, signed: bool = True) -> int:
         """
-- 
2.43.0


From 21fa4e361dcbb396fff26f2197a64a7b38d19424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 21/58] fix: reject invalid counts in damaged data instead of
 running out of memory

---
 src/vfbLib/parsers/glyph.py  | 4 ++++
 src/vfbLib/parsers/guides.py | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..a08f764 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -65,6 +65,8 @@ class GlyphAnchorsParser(BaseParser):
         anchors = []
         num_anchors = self.read_value()
         num_masters = self.read_value()
+        if num_anchors > 0 and not 1 <= num_masters <= 16:
+            raise ValueError(f"Invalid number of masters: {num_masters}")
         for _ in range(num_anchors):
             anchor = MMAnchorDict(x=[], y=[])
             for _ in range(num_masters):
@@ -378,6 +380,8 @@ class GlyphParser(BaseParser):
     def parse_outlines(self, target: GlyphData | MaskData) -> int:
         # Nodes
         num_masters = self.read_value(signed=False)
+        if not 1 <= num_masters <= 16:
+            raise ValueError(f"Invalid number of masters: {num_masters}")
         target["num_masters"] = num_masters
 
         # 2 x the number of values to be read after num_nodes, the reason is unclear.
diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index dadfb68..a366768 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -39,8 +39,11 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
-        guides[direction] = [[] for _ in range(num_guides)]
+        if num_masters < 1:
+            raise ValueError(f"Invalid number of masters: {num_masters}")
+
         for i in range(num_guides):
+            guides[direction].append([])
             for _ in range(num_masters):
                 try:
                     pos = read_value(stream)
-- 
2.43.0


From 2781e6b8b7c37ca0a1cd4a2efd990bee8b9dac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 22/58] fix: merge temporary masters data only once, so that it
 doesn't overwrite later changes

---
 src/vfbLib/vfb/entry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index a8679e6..979d0d2 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -258,6 +258,8 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        # Don't merge the same data again over later changes
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From 74b51df06498b3239bf9d506cfb5fb5ddea027aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 23/58] fix: make a structure for each master when drawing into
 a master other than the first

---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From 480fa75d116118560902c2f8c5d113448dd86167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 24/58] fix: decompile the glyph again when it is accessed
 after the Vfb has been compiled

---
 src/vfbLib/vfb/glyph.py | 18 ++++++++----------
 src/vfbLib/vfb/vfb.py   |  7 ++++++-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 030ce88..e6e2a6f 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -352,11 +352,10 @@ class VfbGlyph:
         """
         # FIXME: Add test!!!
         if self.entry.data is None:
-            if self.entry.data is None:
-                # Make an empty glyph
-                self.empty()
-            else:
-                self.decompile()
+            # Make an empty glyph
+            self.empty()
+        else:
+            self.decompile()
         return VfbGlyphPointPen(self, self._parent)
 
 
@@ -461,9 +460,8 @@ class VfbGlyphMaster:
         """
         # FIXME: Add test!!!
         if self.entry.data is None:
-            if self.entry.data is None:
-                # Make an empty glyph
-                self.glyph.empty()
-            else:
-                self.entry.decompile()
+            # Make an empty glyph
+            self.glyph.empty()
+        else:
+            self.entry.decompile()
         return VfbGlyphPointPen(self, self.glyph._parent)
diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 0e7b5bc..da26c34 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -206,7 +206,12 @@ class Vfb:
     def __getitem__(self, key: str) -> VfbGlyph:
         if not self._glyphs:
             self._decompile_glyphs()
-        return self._glyphs[key]
+        glyph = self._glyphs[key]
+        # Saving compiles all entries, so it may be necessary to decompile again
+        glyph.decompile()
+        if glyph.links_entry is not None:
+            glyph.links_entry.decompile()
+        return glyph
 
     def getGlyphMaster(self, key: str, master_index: int) -> VfbGlyphMaster:
         return VfbGlyphMaster(self[key], master_index)
-- 
2.43.0


From d203f41b56891ed7b0218fa9d6af750b79726ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 25/58] fix: draw the current glyph data instead of a stale
 copy

---
 src/vfbLib/vfb/glyph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index e6e2a6f..c72c381 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -275,8 +275,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        # Always use the current data, it may have been changed since the last time
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -439,8 +439,8 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        # Always use the current data, it may have been changed since the last time
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From 2386f92b7e372ef267ede0f4353a8dc17e9a2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 26/58] fix: don't remove hintmasks and bitmap previews from
 the Vfb when building a UFO

---
 src/vfbLib/ufo/builder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..1f919ce 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -189,7 +189,6 @@ class VfbToUfoBuilder:
             g.mm_hints = data["hints"]
             if "hintmasks" in data["hints"]:
                 g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
@@ -217,9 +216,12 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
-        if "preview" in data["bitmap"]:
-            del data["bitmap"]["preview"]
-        self.current_glyph.lib["com.fontlab.v5.background"] = data
+        # Omit the preview, but don't remove it from the VFB data
+        bitmap = {k: v for k, v in data["bitmap"].items() if k != "preview"}
+        self.current_glyph.lib["com.fontlab.v5.background"] = {
+            **data,
+            "bitmap": bitmap,
+        }
 
     def set_glyph_bitmaps(self, data: "list[GlyphBitmapDict]") -> None:
         assert self.current_glyph is not None
-- 
2.43.0


From 487c4e508ff2286e622b359b8c52b6da703ef242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 27/58] fix: don't duplicate axis labels when the designspace
 is built more than once

---
 src/vfbLib/ufo/builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 1f919ce..36c373c 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -939,13 +939,14 @@ class VfbToUfoBuilder:
         construct the UFO paths assigned to the source descriptors.
         """
         ds = DesignSpaceDocument()
-        ds.axes = self.axes
+        # Use a copy, otherwise the labels are added again on each call
+        ds.axes = deepcopy(self.axes)
 
         # Add labels
         if self.axis_count == 1:
             # Only support the simple case here
             for p in self.primary_instances:
-                self.axes[0].axisLabels.append(
+                ds.axes[0].axisLabels.append(
                     AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
                 )
         else:
-- 
2.43.0


From 94001e1867092809a50647c8f283d5f5f05f9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 28/58] fix: don't share the lib structure between master UFOs

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 36c373c..5a065e9 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -763,7 +763,7 @@ class VfbToUfoBuilder:
             groups=deepcopy(self.ufo_groups),
             info=master_info,
             kerning=master_kerning,
-            lib=self.lib,
+            lib=deepcopy(self.lib),
         )
 
         mask_glyphs: list[Glyph] = []
-- 
2.43.0


From 83d839ab0a639a834190d7983ced079e1d88aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 29/58] fix: calculate the number of masters from the number of
 axes

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 5a065e9..dad3e17 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -686,7 +686,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From b1f0c4cf6ccefeb24b6fcfe2e1aa4bf17ded8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 30/58] fix: serialize the JSON data before opening the output
 file

---
 src/vfbLib/json.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/json.py b/src/vfbLib/json.py
index 69c0fca..00e22b8 100644
--- a/src/vfbLib/json.py
+++ b/src/vfbLib/json.py
@@ -36,9 +36,9 @@ def save_vfb_json(
 
 
 def write_vfb_json(vfb: Vfb, out_path: Path) -> None:
+    # Serialize first, so that an error doesn't leave an existing file truncated
+    data = orjson.dumps(
+        vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
+    )
     with open(str(out_path), "wb") as f:
-        f.write(
-            orjson.dumps(
-                vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
-            )
-        )
+        f.write(data)
-- 
2.43.0


From 519749a526eb183027beaa7938a0e9320e525425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 31/58] fix: extract the ppem for 1 pixel TrueType stems

---
 src/vfbLib/tth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..e73febc 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -207,7 +207,7 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                target[direction][stem_index][1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From 838d603b90af472dd12f67081f4681a6f8750650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 32/58] fix: export TrueType hinting from files without stems,
 zones, or deltas

---
 src/vfbLib/tth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index e73febc..3c1ef6e 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -328,7 +328,7 @@ def merge_stem_information(data: dict, font: dict) -> None:
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -341,7 +341,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -355,5 +355,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From d401237f11879dae97d26159a7f79a5f94dff4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 33/58] fix: serialize the TrueType hinting before opening the
 output file

---
 src/vfbLib/tth.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 3c1ef6e..d686ee9 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -1,4 +1,3 @@
-import codecs
 from argparse import ArgumentParser
 from copy import deepcopy
 from pathlib import Path
@@ -60,23 +59,23 @@ def vfb2tth():
         if args.format == "toml":
             import tomli_w
 
-            with open(out_path, "wb") as f:
-                tomli_w.dump(data, f)
+            output = tomli_w.dumps(data).encode("utf-8")
         elif args.format == "yaml":
             import yaml
 
-            with codecs.open(str(out_path), "wb", "utf-8") as f:
-                yaml.dump(data, f, sort_keys=True, indent=2)
+            output = yaml.dump(data, sort_keys=True, indent=2).encode("utf-8")
         else:
-            with open(str(out_path), "wb") as f:
-                f.write(
-                    orjson.dumps(
-                        data,
-                        option=orjson.OPT_INDENT_2
-                        | orjson.OPT_NON_STR_KEYS
-                        | orjson.OPT_SORT_KEYS,
-                    )
-                )
+            output = orjson.dumps(
+                data,
+                option=orjson.OPT_INDENT_2
+                | orjson.OPT_NON_STR_KEYS
+                | orjson.OPT_SORT_KEYS,
+            )
+
+        # Only open the file when there is something to write, so that an error doesn't
+        # leave an existing file truncated
+        with open(str(out_path), "wb") as f:
+            f.write(output)
 
         if vfb.any_errors:
             exit("There were decompilation errors.")
-- 
2.43.0


From c14860eece2e9a4bde3f00ad9fa0e5d6bd32bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 34/58] fix: compare lines instead of characters in the HTML
 diff

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From 625ea8af1f5c0a5f4abbda181d9f801b8e92418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 35/58] fix: don't overwrite existing UFO JSON files unless it
 was requested

---
 src/vfbLib/ufo/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index dad3e17..8e37c71 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -915,6 +915,8 @@ class VfbToUfoBuilder:
         for index, ufo in enumerate(ufos):
             master_path = self.get_master_path(out_path, index)
             if json:
+                if master_path.exists() and not overwrite:
+                    raise FileExistsError(str(master_path))
                 ufo.json_dump(master_path, indent=indent, sort_keys=False)
             else:
                 ufo.save(master_path, structure=strct, overwrite=overwrite)
-- 
2.43.0


From eade403d56419b622984a7566c648438cce69969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 36/58] fix: don't keep an incomplete glyph set when a glyph
 can't be decompiled

---
 src/vfbLib/vfb/vfb.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index da26c34..1168955 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -161,6 +161,10 @@ class Vfb:
             e.compile()
 
     def _decompile_glyphs(self) -> None:
+        # Only keep the result when all glyphs could be decompiled. Otherwise the next
+        # access would find an incomplete glyph set.
+        glyphs: dict[str, VfbGlyph] = {}
+        glyph_order: list[str] = []
         name = None
         for entry in self.entries:
             match entry.id:
@@ -169,13 +173,13 @@ class Vfb:
                     name = glyph.decompile()
                     i = 1
                     # Disambiguate duplicate names
-                    if name in self._glyphs:
+                    if name in glyphs:
                         logger.error(f"VFB contains duplicate glyph name: {name}")
-                        while f"{name}#{i}" in self._glyphs:
+                        while f"{name}#{i}" in glyphs:
                             i += 1
                         name = f"{name}#{i}"
-                    self._glyphs[name] = glyph
-                    self.glyph_order.append(name)
+                    glyphs[name] = glyph
+                    glyph_order.append(name)
                 case G.Links:
                     # We need to store the links of the glyph for converting links to
                     # PS hints before writing charstrings
@@ -183,7 +187,7 @@ class Vfb:
                     if name is None:
                         logger.error("Links entry without preceding glyph entry")
                     else:
-                        self._glyphs[name].links_entry = entry
+                        glyphs[name].links_entry = entry
                 case G.HintingOptions:
                     # We need this to decide if we should generate hstem3/vstem3 hints
                     entry.decompile()
@@ -192,12 +196,15 @@ class Vfb:
                             "Glyph Hinting Options entry without preceding glyph entry"
                         )
                     else:
-                        self._glyphs[name].ps_hinting_options = entry
+                        glyphs[name].ps_hinting_options = entry
                 case F.PostScriptHintingOptions:
                     # We need this to decide if we should generate flex hints
                     entry.decompile()
                     self.ps_hinting_options = entry
 
+        self._glyphs = glyphs
+        self.glyph_order = glyph_order
+
     def __contains__(self, key: str) -> bool:
         if not self._glyphs:
             self._decompile_glyphs()
-- 
2.43.0


From ea295776f79412e9437ff674ef2cce7e39a2aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 37/58] fix: draw the last quadratic curve of a contour to the
 contour's start point

---
 src/vfbLib/vfb/glyph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c72c381..8cc036e 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -211,6 +211,7 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start = None
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
@@ -218,7 +219,8 @@ class VfbGlyph:
             pt = n["points"][self.master_index][0]
             if node_type == "move":
                 if in_qcurve:
-                    qcurve.append(pt)
+                    # The last curve ends in the start point of its own contour
+                    qcurve.append(start)
                     pen.qCurveTo(*qcurve)
                 if in_path:
                     if path_is_open:
@@ -229,6 +231,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -250,6 +253,9 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve:
+            qcurve.append(start)
+            pen.qCurveTo(*qcurve)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From 430d89be107ae645f189d5d244446d3ca227d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 38/58] fix: don't hang on negative OS/2 bit fields when
 exporting to UFO

---
 src/vfbLib/ufo/info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 1dbfd99..c9475f7 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -260,7 +260,7 @@ class VfbToUfoInfo(Info):
 
         # Those should not be included in the list.
         # Any others could remain, but FL doesn't set them.
-        intlist = binaryToIntList(data)
+        intlist = binaryToIntList(data & 0xFFFF)
         self.openTypeOS2Selection = [b for b in intlist if b not in (0, 5, 6)]
 
         # Construct the style map style name
@@ -302,7 +302,8 @@ class VfbToUfoInfo(Info):
                     # self.info.openTypeOS2Type = binaryToIntList(v)
                     pass
                 elif k == "os2_fs_type":
-                    self.openTypeOS2Type = binaryToIntList(v)
+                    # 16 bit field, but it is read as a signed value
+                    self.openTypeOS2Type = binaryToIntList(v & 0xFFFF)
                 elif k == "os2_s_family_class":
                     c = v >> 8
                     s = v & ~(c << 8)
-- 
2.43.0


From 44224cb0c8584528e46339ba2efcc93427fe872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 39/58] fix: label all PS hint points before the first master
 is drawn

---
 src/vfbLib/ufo/builder.py | 6 ++++++
 src/vfbLib/ufo/paths.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 8e37c71..81c571f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -873,6 +873,12 @@ class VfbToUfoBuilder:
         if self.features_code:
             self.ufo_features.text += f"\n\n{self.features_code}"
 
+        if self.include_ps_hints:
+            # The PS hints of composites add labels to the points of their base glyphs.
+            # All labels must be known before the first glyph is drawn.
+            for mm_glyph in self.glyph_masters.values():
+                UfoMasterGlyph(mm_glyph, self.glyphOrder, 0).label_ps_hints()
+
         ufo_masters = []
         logger.info(f"Extracting {len(self.masters)} master UFOs...")
         for i in range(len(self.masters)):
diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..5b4e80f 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -101,6 +101,12 @@ class UfoMasterGlyph:
         """
         _drawPoints(pen, self.mask_contours, None)
 
+    def label_ps_hints(self) -> None:
+        """
+        Label the points which the PostScript hints of the glyph refer to.
+        """
+        self._extract_master_ps_hints()
+
     def _extract_master_anchors(self) -> None:
         if self.mm_glyph.anchors is None:
             return
-- 
2.43.0


From 9e22d683520fe0f11b3be83792c4b910291e9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 40/58] fix: set the glyph order before the glyphs, so that an
 interruption can't lose it

---
 src/vfbLib/vfb/vfb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 1168955..9a650cb 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -202,8 +202,9 @@ class Vfb:
                     entry.decompile()
                     self.ps_hinting_options = entry
 
-        self._glyphs = glyphs
+        # The glyphs come last, because they decide if this is done again on next access
         self.glyph_order = glyph_order
+        self._glyphs = glyphs
 
     def __contains__(self, key: str) -> bool:
         if not self._glyphs:
-- 
2.43.0


From d8fde7b182795782f4794f6c071537629b245a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 41/58] fix: Glyph objects stay usable after their font was
 saved

After a save, the entry of a glyph holds encoded data again. Glyph objects that
were obtained before failed with a TypeError when they were cleared, drawn, or
asked for their hints or their number of contours.
---
 src/vfbLib/vfb/entry.py |  6 +++---
 src/vfbLib/vfb/glyph.py | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 979d0d2..031e9a4 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -220,9 +220,6 @@ class VfbEntry(StreamReader):
         """
         Decompile the entry. The result is stored in VfbEntry.data.
         """
-        if self.parser is None:
-            raise ValueError(f"No parser is specified for entry type {self.id}")
-
         if self.data is None:
             raise ValueError
 
@@ -230,6 +227,9 @@ class VfbEntry(StreamReader):
             # Already decompiled
             return
 
+        if self.parser is None:
+            raise ValueError(f"No parser is specified for entry type {self.id}")
+
         byte_data = self.data
 
         try:
diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 8cc036e..2b430bb 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -46,6 +46,7 @@ class VfbGlyph:
         Returns:
             int: The number of paths, or contours.
         """
+        self.entry.decompile()
         if not self.entry.data["nodes"]:
             return 0
 
@@ -60,6 +61,7 @@ class VfbGlyph:
         return self._glyph.name
 
     def clearContours(self):
+        self.entry.decompile()
         try:
             del self.entry.data["hints"]
         except KeyError:
@@ -141,6 +143,7 @@ class VfbGlyph:
     def resolve_hints(self) -> "dict[str, list[HintTuple]]":
         hints: "dict[str, list[HintTuple]]" = {"h": [], "v": []}
 
+        self.entry.decompile()
         mm_hints = self.entry.data.get("hints", {"h": [], "v": []})
 
         # Hints
@@ -166,6 +169,8 @@ class VfbGlyph:
         if self.links_entry is None:
             return hints
 
+        self.entry.decompile()
+        self.links_entry.decompile()
         links = self.links_entry.data
         assert isinstance(links, dict)
         if not (links["x"] or links["y"]):
@@ -205,6 +210,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self.entry.decompile()
         glyph = self.entry.data
 
         path_is_open = False
@@ -281,6 +287,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self.entry.decompile()
         # Always use the current data, it may have been changed since the last time
         self._copy_to_ufo_glyph()
 
@@ -297,6 +304,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self.entry.decompile()
         glyph = self.entry.data
 
         in_path = False
@@ -379,6 +387,7 @@ class VfbGlyphMaster:
         Returns:
             int: The number of paths, or contours.
         """
+        self.entry.decompile()
         if not self.entry.data["nodes"]:
             return 0
 
@@ -424,6 +433,7 @@ class VfbGlyphMaster:
         self._glyph.build()
 
     def clearContours(self):
+        self.entry.decompile()
         if self.master_index == 0:
             target = self.entry.data
         else:
@@ -445,6 +455,7 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
+        self.entry.decompile()
         # Always use the current data, it may have been changed since the last time
         self._copy_to_ufo_glyph(self.master_index)
 
-- 
2.43.0


From 27141cd61b565772b78f46b35fb72de8877c62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 42/58] fix: refer to the sources relative to the designspace
 file

---
 src/vfbLib/ufo/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 81c571f..6304d5b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -968,7 +968,8 @@ class VfbToUfoBuilder:
             ds.addSourceDescriptor(
                 # designLocation=,
                 familyName=self.info.ds_family_name,
-                filename=f"{self.get_master_path(out_path, i)}",
+                # The file name is relative to the designspace, in the same folder
+                filename=self.get_master_path(out_path, i).name,
                 location=get_ds_location(self.axes, self.master_locations[i + 1]),
                 name=self.masters[i].strip(),
                 styleName=f"Master {i}",
-- 
2.43.0


From d0d0c9901d4de770ac197bbac4b5a658856af402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 43/58] fix: Close contours in the same way in all masters

---
 src/vfbLib/ufo/paths.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 5b4e80f..2c526a6 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -142,6 +142,8 @@ class UfoMasterGlyph:
 
         path_is_open = False
         in_qcurve = False
+        first_node = None
+        is_closing = False
         if True:
             contour: "UfoContour" = []
             for i, n in enumerate(mm_nodes):
@@ -156,8 +158,9 @@ class UfoMasterGlyph:
                 smooth = bool(flags & 1)
 
                 if segment_type == "move":
-                    self._append_contour(contour, path_is_open, to_mask)
+                    self._append_contour(contour, path_is_open, to_mask, is_closing)
                     contour = [("move", smooth, name, pt)]
+                    first_node = n
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
 
@@ -183,7 +186,12 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-            self._append_contour(contour, path_is_open, to_mask)
+                # The masters must stay compatible, so look at all of them
+                is_closing = first_node is not None and all(
+                    a[0] == b[0] for a, b in zip(first_node["points"], n["points"])
+                )
+
+            self._append_contour(contour, path_is_open, to_mask, is_closing)
 
         if to_mask:
             # Mask has no components
@@ -320,24 +328,32 @@ class UfoMasterGlyph:
             cmd[key] = self.rename_points[pt_name]
 
     def _append_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool = False,
+        is_closing: bool = False,
     ) -> None:
         """
         Append the contour to the glyph's contours, applying closepath optimizations.
+        `is_closing` means that the last point has the same position as the first point
+        in all masters.
         """
         if contour:
-            ct = self._flush_contour(contour, path_is_open)
+            ct = self._flush_contour(contour, path_is_open, is_closing=is_closing)
             if to_mask:
                 self.mask_contours.append(ct)
             else:
                 self.contours.append(ct)
 
-    def _apply_closepath(self, contour: "UfoContour", to_mask: bool = False) -> None:
+    def _apply_closepath(
+        self, contour: "UfoContour", to_mask: bool = False, is_closing: bool = False
+    ) -> None:
         """
         Apply closepath optimizations to the contour.
         """
         last_type = contour[-1][0]
-        if contour[-1][3] == contour[0][3] and last_type not in ("line", "qcurve"):
+        if is_closing and last_type not in ("line", "qcurve"):
             # Equal coords, use closepath to draw the last line, but not for explicit
             # lines
             name = contour[0][2]
@@ -362,7 +378,11 @@ class UfoMasterGlyph:
             contour[0] = ("line", smooth, name, pt)
 
     def _flush_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool = False,
+        is_closing: bool = False,
     ) -> "UfoContour":
         """
         Post-process a contour before it is appended to the glyph's contours.
@@ -370,7 +390,9 @@ class UfoMasterGlyph:
         if not path_is_open:
             last_type = contour[-1][0]
             if last_type in ("line", "curve", "qcurve"):
-                self._apply_closepath(contour, to_mask=to_mask)
+                self._apply_closepath(
+                    contour, to_mask=to_mask, is_closing=is_closing
+                )
 
             elif last_type is None:
                 _, smooth, name, pt = contour[0]
-- 
2.43.0


From f7af3cf6f06a99242d71dc992b07e417738f3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 44/58] fix: forget the curve type of the previous data

---
 src/vfbLib/vfb/vfb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 9a650cb..54917d2 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -145,6 +145,7 @@ class Vfb:
         self._glyphs = {}
         self.glyph_order = []
         self.info = VfbInfo(vfb=self)
+        self.lib = {}
         self.num_masters = 0
         self.ttStemsV_count = 0
         self.ttStemsH_count = 0
-- 
2.43.0


From 895e17d0bc4eb2a581483eecbd83e4063e4f9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 45/58] fix: keep the last glyph of a font apart from others of
 the same name

The last glyph of the font replaced a glyph of the same name in the export, more than
255 glyphs of the same name were dropped, and the kerning of renamed glyphs was assigned
to the first glyph of that name.
---
 src/vfbLib/ufo/builder.py | 41 ++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 6304d5b..c570519 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -175,10 +175,29 @@ class VfbToUfoBuilder:
         if TT_GLYPH_LIB_KEY not in self.lib:
             self.lib[TT_GLYPH_LIB_KEY] = {}
 
+    def add_glyph(self, glyph: VfbToUfoGlyph) -> None:
+        """
+        Add the glyph to the glyph set under a unique name.
+        """
+        if glyph.name is None:
+            logger.error("Glyph without name.")
+            return
+
+        name = glyph.name
+        i = 0
+        while glyph.name in self.glyph_masters:
+            glyph.name = f"{name}#{i}"
+            i += 1
+        if glyph.name != name:
+            logger.warning(f"Duplicate glyph, renamed from {name} to {glyph.name}.")
+        self.glyph_masters[glyph.name] = glyph
+        self.glyphOrder.append(glyph.name)
+
     def build_mm_glyph(self, data: dict[str, Any]) -> None:
         g = self.current_glyph = VfbToUfoGlyph(self)
         g.lib = {}
         g.name = data["name"]
+        self.add_glyph(g)
         g.unicodes = []
 
         # MM Stuff, need to extract later
@@ -451,24 +470,6 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -661,10 +662,6 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From b81f5582b42edd6eb91fbd28d57e8d411837c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 46/58] fix: choose the bigger stem width if two widths have
 the same rounding ppm

The duplicates were never found, because the keys of the result are strings. So the last
width was used, which is 1 pixel in the vfb2tth export.
---
 src/vfbLib/ufo/tth.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..9b6544e 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -74,11 +74,11 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
         dict[str, int]: The transformed stem rounding dict.
     """
     d: dict[str, int] = {}
-    for k, v in data.items():
-        key = v
-        val = k
+    for val, v in data.items():
+        # The UFO lib needs str keys
+        key = str(v)
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From 55e163ba51f222e0a72a4861bdaccdaa8312a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 47/58] fix: refer to unnamed and duplicate TrueType stems by
 their exported name

The names were completed after the hinting commands had been built, so that the commands
referred to a stem without a name, or to another stem of the same name. With more than two
stems of the same name, one of them was lost.
---
 src/vfbLib/ufo/builder.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index c570519..6586e50 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -399,25 +399,40 @@ class VfbToUfoBuilder:
             zone_name = self.tt_zone_names[int(zone_index)]
             self.tt_zones[zone_name]["delta"] = {str(k): v for k, v in deltas.items()}
 
-    def build_tt_stems_lib(self) -> None:
-        lib = {}
+    def name_tt_stems(self) -> None:
+        """
+        Make sure that all TrueType stems have a unique name, so they can be referenced
+        by the glyph hints.
+        """
+        names: set[str] = set()
         for d in ("ttStemsH", "ttStemsV"):
             i = 0
-            direction_stems = self.stems[d]
-            for stem in direction_stems:
+            for stem in self.stems[d]:
                 name = stem["name"]
-                del stem["name"]
                 if name == "":
                     dname = "v" if d == "ttStemsH" else "h"
                     name = "%s%02i" % (dname, i)
                     i += 1
-                if name in lib:
+                if name in names:
                     oldname = name
-                    name = "%s#%02i" % (oldname, i)
+                    n = i
+                    while name in names:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
                     logger.warning(
                         f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
                         ". Preferably make stem names unique in VFB."
                     )
+                names.add(name)
+                stem["name"] = name
+
+    def build_tt_stems_lib(self) -> None:
+        lib = {}
+        for d in ("ttStemsH", "ttStemsV"):
+            direction_stems = self.stems[d]
+            for stem in direction_stems:
+                name = stem["name"]
+                del stem["name"]
                 lib[name] = stem
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
@@ -663,6 +678,7 @@ class VfbToUfoBuilder:
                     logger.info(f"Unhandled entry: {k}")
 
         self.lib["public.glyphOrder"] = self.glyphOrder
+        self.name_tt_stems()
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
         self.build_tt_stems_lib()
-- 
2.43.0


From e08a4bf7526d39492839244678e7f38eefb0b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 48/58] fix: keep TrueType zones of the same name apart in the
 export

The last zone replaced the others of the same name, and the hinting commands of all of them
referred to it.
---
 src/vfbLib/ufo/builder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 6586e50..f3a7d4f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -366,8 +366,15 @@ class VfbToUfoBuilder:
                     width=dz["value"],
                 )
                 name = dz["name"]
-                if name in self.tt_zones:
-                    logger.warning(f"Duplicate zone name: {name}, overwriting.")
+                i = 1
+                while name in self.tt_zones:
+                    # Zones are referenced by name, make it unique
+                    name = f"{dz['name']}#{i}"
+                    i += 1
+                if name != dz["name"]:
+                    logger.warning(
+                        f"Duplicate zone name: {dz['name']}, renamed to {name}."
+                    )
                 self.tt_zones[name] = zone
                 self.tt_zone_names.append(name)  # for deltas
                 self.zone_names[d].append(name)  # for AlignTop/AlignBottom
-- 
2.43.0


From a6cfbd813952d78661580e3ecc248ab33857be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 49/58] fix: refer to the exported point if a hinted point is
 merged with the start point

A curve's end point which closes the contour is merged with the start point. If both points
were hinted, the hints of one of them referred to a point that doesn't exist in the UFO.
---
 src/vfbLib/ufo/glyph.py | 30 ++++++++++++++++++++++++++++++
 src/vfbLib/ufo/paths.py | 10 ++++------
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index 377b2be..8ced4a8 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -20,6 +20,32 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 
+def get_closing_nodes(mm_nodes: "list[MMNode]") -> dict[int, int]:
+    """
+    Return the indices of the nodes which are merged with the start node when their
+    contour is closed, and the index of that start node. A node is merged if it has the
+    same position as the start node in all masters.
+    """
+    closing: dict[int, int] = {}
+    start: int | None = None
+    for i, node in enumerate(mm_nodes):
+        if node["type"] == "move":
+            start = i
+        is_last = i + 1 == len(mm_nodes) or mm_nodes[i + 1]["type"] == "move"
+        if start is None or not is_last or node["type"] != "curve":
+            continue
+
+        if mm_nodes[start]["flags"] & 8:
+            # The path is open
+            continue
+
+        if all(
+            a[0] == b[0] for a, b in zip(mm_nodes[start]["points"], node["points"])
+        ):
+            closing[i] = start
+    return closing
+
+
 class VfbToUfoGlyph:
     def __init__(self, builder: "VfbToUfoBuilder | None" = None) -> None:
         self.builder = builder
@@ -81,6 +107,10 @@ class VfbToUfoGlyph:
             )
             return "invalid"
 
+        # Closing nodes don't have their own point, so they share the label of the start
+        # node
+        index = get_closing_nodes(self.mm_nodes).get(index, index)
+
         if index in self.point_labels:
             # We already have a label for this point index
             return self.point_labels[index]
diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 2c526a6..1bcc69b 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -3,6 +3,7 @@ from base64 import b64encode
 from copy import deepcopy
 from typing import TYPE_CHECKING, Any
 
+from vfbLib.ufo.glyph import get_closing_nodes
 from vfbLib.ufo.guides import apply_guide_properties, get_master_guides
 from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import set_tth_lib
@@ -142,8 +143,9 @@ class UfoMasterGlyph:
 
         path_is_open = False
         in_qcurve = False
-        first_node = None
         is_closing = False
+        # The masters must stay compatible, so this looks at all of them
+        closing_nodes = get_closing_nodes(mm_nodes)
         if True:
             contour: "UfoContour" = []
             for i, n in enumerate(mm_nodes):
@@ -160,7 +162,6 @@ class UfoMasterGlyph:
                 if segment_type == "move":
                     self._append_contour(contour, path_is_open, to_mask, is_closing)
                     contour = [("move", smooth, name, pt)]
-                    first_node = n
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
 
@@ -186,10 +187,7 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-                # The masters must stay compatible, so look at all of them
-                is_closing = first_node is not None and all(
-                    a[0] == b[0] for a, b in zip(first_node["points"], n["points"])
-                )
+                is_closing = i in closing_nodes
 
             self._append_contour(contour, path_is_open, to_mask, is_closing)
 
-- 
2.43.0


From b8dc5d73f2b545c17da054e369d9a7ffc9c05186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 50/58] fix: export the TrueType hints of all glyphs of the
 same name

The hints of the last glyph replaced those of other glyphs of the same name.
---
 src/vfbLib/tth.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index d686ee9..070500a 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -101,6 +101,7 @@ def extract_truetype_hinting(vfb: Vfb) -> dict[str, Any]:
     zone_names: dict[str, dict] = {"ttZonesT": {}, "ttZonesB": {}}
     d: dict[str, Any] = {"font": font, "glyphs": glyphs}
     stem_round: dict[str, dict] = {"ttStemsV": {}, "ttStemsH": {}}
+    glyph_names: set[str] = set()
     for entry in vfb.entries:
         key = entry.key
         if key == "gasp":
@@ -161,7 +162,14 @@ def extract_truetype_hinting(vfb: Vfb) -> dict[str, Any]:
         elif key == "Glyph":
             entry.decompile()
             assert isinstance(entry.data, dict)
-            extract_glyph_hints(entry.data, glyphs, font, zone_names)
+            name = entry.data["name"]
+            i = 1
+            # Make glyph names unique
+            while name in glyph_names:
+                name = f"{entry.data['name']}#{i}"
+                i += 1
+            glyph_names.add(name)
+            extract_glyph_hints({**entry.data, "name": name}, glyphs, font, zone_names)
 
     merge_stem_information(stem_round, font)
     merge_zone_information(font)
-- 
2.43.0


From 13b66b154e7400263ee459b2ca99162ded98151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 51/58] fix: encode TrueType hints with non-ASCII stem or zone
 names as base64

---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 1bcc69b..2409073 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -268,7 +268,7 @@ class UfoMasterGlyph:
         if encode_data_base64 and TT_GLYPH_LIB_KEY in self.lib:
             data = self.lib[TT_GLYPH_LIB_KEY]
             if not isinstance(data, bytes):
-                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("ascii"))
+                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("utf-8"))
         if TT_UFO_LIB_KEY in self.lib:
             self.lib[TT_UFO_LIB_KEY] = deepcopy(self.lib[TT_UFO_LIB_KEY])
 
-- 
2.43.0


From 4ee75c4d6ba4952d19531ad4b19029ad5f9294c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 52/58] fix: export the notes of glyphs to UFO

---
 src/vfbLib/ufo/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index f3a7d4f..0fe5e0b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -804,6 +804,7 @@ class VfbToUfoBuilder:
             ufo_glyph.guidelines = master_glyph.guidelines
             ufo_glyph.height = master_glyph.height
             ufo_glyph.lib = master_glyph.lib
+            ufo_glyph.note = mm_glyph.note
             ufo_glyph.width = master_glyph.width
             ufo_glyph.unicodes = master_glyph.unicodes
 
-- 
2.43.0


From e120df3d1854ae5c87634dff6135c10562ed574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 53/58] fix: rename kerning classes in all pair positioning
 statements of a line

---
 src/vfbLib/ufo/features.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 738fbf5..1ad8004 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -1,4 +1,7 @@
-from re import search
+from re import compile, Match
+
+# A pair positioning statement up to its second glyph or class
+PAIR_POS = compile(r"((?:^|[;{])\s*(?:enum\s+)?pos\s+)(\S+)(\s+)(\S+)(?=\s+\S)")
 
 
 def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
@@ -8,25 +11,16 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
     """
     features = []
     for line in data:
-        if "#" in line:
-            code, comment = line.split("#", 1)
-        else:
-            code = line
-            comment = None
-
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) ([\S]+) +([\S]+.*)$", code):
-            indent, enum, pos, L, R, value = m.groups()
-            if L.startswith("@_"):
-                L = f"@public.kern1.{L[1:]}"
-            if R.startswith("@_"):
-                R = f"@public.kern2.{R[1:]}"
-            if enum is None:
-                enum = ""
-            code = f"{indent}{enum}{pos} {L} {R} {value}"
-            if comment:
-                code += f"#{comment}"
-            features.append(code)
-        else:
-            features.append(line)
+        code, mark, comment = line.partition("#")
+        features.append(PAIR_POS.sub(_rename_classes, code) + mark + comment)
 
     return features
+
+
+def _rename_classes(m: Match) -> str:
+    pos, L, space, R = m.groups()
+    if L.startswith("@_"):
+        L = f"@public.kern1.{L[1:]}"
+    if R.startswith("@_"):
+        R = f"@public.kern2.{R[1:]}"
+    return f"{pos}{L}{space}{R}"
-- 
2.43.0


From 9d72ba598bb66ee9c1abb4cb11b0b801616f3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 54/58] fix: print nothing in silent mode of vfb2ufo

The time that reading and decompiling took was printed even with -s.
---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..9865200 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From 34c39fb36e19212164de290a850e67d7524a7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 55/58] fix: keep the prefix of feature code without features

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 018367a..143c9aa 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -80,8 +80,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There are no features, flush the prefix code
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From f39dcd28b43fb6fa91070938b1f76736faadf3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:46 +0000
Subject: [PATCH 56/58] fix: encode negative anchor properties and class flags
 as they are decoded

---
 src/vfbLib/compilers/base.py  | 10 +++++-----
 src/vfbLib/compilers/glyph.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index deafa1e..9e35b29 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -288,8 +288,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -298,6 +298,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..df9ce46 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 48e889b366b4b4338bae02656c1863214fc5e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:32 +0000
Subject: [PATCH 57/58] fix: fail when the data of an interpolation axis is
 incomplete

---
 src/vfbLib/parsers/mm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index 5d3d851..553fc72 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -7,14 +7,15 @@ class AnisotropicInterpolationsParser(BaseParser):
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
         while True:
-            axis_values = []
             try:
                 n = self.read_value()
-                axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
-                values.append(axis_values)
             except EOFError:
                 return values
 
+            # The data may only end between the axes
+            axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
+            values.append(axis_values)
+
 
 class AxisMappingsCountParser(BaseParser):
     def _parse(self) -> list[int]:
-- 
2.43.0


From 5849bfea6e16f69a446ff9d86c2d0a10bc5aed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:32 +0000
Subject: [PATCH 58/58] fix: fail when the data ends inside of a number, text
 or gasp record

---
 src/vfbLib/parsers/base.py     | 11 ++++++++---
 src/vfbLib/parsers/glyph.py    |  2 +-
 src/vfbLib/parsers/truetype.py |  4 ++--
 src/vfbLib/parsers/value.py    | 15 ++++++++++++---
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index a9076b0..d34b503 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -37,12 +37,17 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
-    def _read_int(self, size: int, signed: bool) -> int:
+    def _read_exactly(self, size: int) -> bytes:
         data = self.stream.read(size)
         if len(data) < size:
             # Don't make up values beyond the end of the data
             raise EOFError
-        return int.from_bytes(data, byteorder="little", signed=signed)
+        return data
+
+    def _read_int(self, size: int, signed: bool) -> int:
+        return int.from_bytes(
+            self._read_exactly(size), byteorder="little", signed=signed
+        )
 
     def read_double(self) -> float:
         """
@@ -105,7 +110,7 @@ class StreamReader:
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding)
+        return self._read_exactly(size).decode(self.encoding)
 
     def read_str_with_len(self) -> str:
         """
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index a08f764..d50b746 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -283,7 +283,7 @@ class GlyphParser(BaseParser):
                 case 0x2B:
                     # Instructions
                     num_bytes = self.read_value(signed=False)
-                    instructions = self.stream.read(num_bytes)
+                    instructions = self._read_exactly(num_bytes)
                     p = Program()
                     p.fromBytecode(instructions)
                     imported["instructions"] = p.getAssembly()
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 98fcbd6..78ec334 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -36,7 +36,7 @@ class GaspParser(BaseParser):
 
     def _parse(self) -> "GaspList":
         data = self.stream.read()
-        gasp = unpack(f"<{len(data) // 2}H", data)
+        gasp = unpack(f"<{len(data) // 4 * 2}H", data)
         it = iter(gasp)
         return [
             {
@@ -165,7 +165,7 @@ class TrueTypeStemsParser(BaseParser):
             for _ in range(num_stems):
                 width = self.read_value()
                 stem_name_length = self.read_uint8()
-                stem_name = self.stream.read(stem_name_length).decode(self.encoding)
+                stem_name = self.read_str(stem_name_length)
                 ppm6 = self.read_value()
 
                 direction.append(
diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..cb9e563 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,14 @@ if TYPE_CHECKING:
     from io import BufferedIOBase
 
 
+def _read_exactly(stream: "BufferedIOBase", size: int) -> bytes:
+    data = stream.read(size)
+    if len(data) < size:
+        # Don't make up values beyond the end of the data
+        raise ValueError
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -24,6 +32,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         ValueError: When the byte that was read from the stream is < 0x20.
         ValueError: When the byte that was read from the stream has any other undefined
             value.
+        ValueError: When the stream ends inside of the value.
 
     Returns:
         int: The decoded value.
@@ -41,13 +50,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_exactly(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_exactly(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +64,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_exactly(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
-- 
2.43.0

