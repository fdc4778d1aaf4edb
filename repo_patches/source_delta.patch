From a72ac6420e527779b23e9c3929b499d1bd4202dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 01/40] fix: wide strings are UTF-16LE code units without a
 byte order mark

---
 rxls/biff_recs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..ff06a26 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -38,14 +38,15 @@ class xstr:
         (sz,) = u4_u(io.read(4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(io.read(sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            data = self.s.encode("utf-16-le")
+            io.write(u4_p(len(data) // 2))
+            io.write(data)
         else:
             io.write(b"\x00\x00\x00\x00")
 
@@ -56,7 +57,7 @@ class xstr:
         (sz,) = u4_u(b[:4])
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        return xstr(b[4 : 4 + sz * 2].decode("utf-16-le"))
 
     @staticmethod
     def from_string(s: str) -> xstr:
-- 
2.43.0


From d96b012c49f17df5f8c6edf78bdf7a66b931cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 02/40] fix: decode XLSB cell and shared texts as UTF-16LE,
 keeping a leading U+FEFF

---
 rxls/reader/xlsb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..2a08fe5 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -131,7 +131,7 @@ class XlsbWorkbook:  # noqa: D101
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
-                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
+                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                 )
                 else y
                 for i, r in enumerate(scan_biff(io, {19}))
@@ -259,7 +259,7 @@ class XlsbWorkbook:  # noqa: D101
                 if r.rec_id in {6, 8}:
                     # NOTE: The slowest case, due to utf-16 encoding.
                     cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
-                        "utf-16",
+                        "utf-16-le",
                     )
                     if self.null_values(cell_data):
                         continue
-- 
2.43.0


From b272a9fcee8e8511180ecf2b2374923abc68165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 03/40] fix: compare XLSB texts with error strings as text

---
 rxls/reader/xlsb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 2a08fe5..688b563 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,8 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
-    for x in (
+    (
         "#NULL!",
         "#DIV/0!",
         "#VALUE!",
-- 
2.43.0


From d2b080be3efad820180638603856ac0d034b9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 04/40] fix: a workbook without texts has no shared strings
 part

---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 688b563..e7f4fc5 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -126,6 +126,9 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..fac049b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -157,6 +157,9 @@ class XlsxWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
-- 
2.43.0


From b2a7c47699d045fc9cd2b870808e66011bffa71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 05/40] fix: load XLSB shared strings before null shared
 strings are looked up

---
 rxls/reader/xlsb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index e7f4fc5..3b1fb22 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -194,6 +194,8 @@ class XlsbWorkbook:  # noqa: D101
             raise RuntimeError(msg)
 
         _sheets = self.sheets
+        # ? `null_shared` is filled by the scan of shared strings
+        _ = self.shared
 
         if isinstance(sheet, int):
             if not (0 <= sheet < len(_sheets)):
-- 
2.43.0


From bf3c6fa5a168987350beccb7b5d5dd8ec9c798e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 06/40] fix: skip_rows does not turn an unlimited read into a
 limited one

---
 rxls/reader/xlsb.py | 4 +++-
 rxls/reader/xlsx.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 3b1fb22..424182c 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -213,7 +213,9 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        # ? Zero means no limit
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index fac049b..fe4d01b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -287,7 +287,9 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        # ? Zero means no limit
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
-- 
2.43.0


From 8ee29ccbbe61724742f5f2fa98152c0830ca9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 07/40] fix: rows below skip_rows are read when empty rows are
 dropped

---
 rxls/reader/xlsb.py | 3 ++-
 rxls/reader/xlsx.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 424182c..d94615b 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -233,7 +233,8 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    # ? Skipped rows have no cells read: each of them counts
+                    if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index fe4d01b..b4f8e1d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -402,7 +402,8 @@ class XlsxWorkbook:  # noqa: D101
                 if tag == "row":
                     # ? Row number for cells increases here only.
                     # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    # * Skipped rows have no cells read: each of them counts
+                    if not is_empty_row or take_non_empty or row < skip_rows:
                         row += 1
 
                     if callback is not None:
-- 
2.43.0


From 1ee4c0b32396314b5f2cd52ecaf09e6c9ebb3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 08/40] fix: XLSX row emptiness is per row, and take_rows is
 not moved by empty rows

---
 rxls/reader/xlsx.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index b4f8e1d..549b949 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -390,7 +390,7 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, take_rows, l_tag
+                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, l_tag
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -409,12 +409,8 @@ class XlsxWorkbook:  # noqa: D101
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
+                    is_empty_row = True
 
-                    # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
-                        take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
                         raise GeneratorExit
-- 
2.43.0


From 2c39efb3c7bcb377b4e69c6c05805b424d46c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 09/40] fix: XLSX null values are looked up in the shared text,
 not in its index

---
 rxls/reader/xlsx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 549b949..c4c4ef7 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -270,6 +270,8 @@ class XlsxWorkbook:  # noqa: D101
             raise RuntimeError(msg)
 
         _sheets = self.sheets
+        # ? `null_shared` is filled by the scan of shared strings
+        _ = self.shared
 
         if isinstance(sheet, int):
             if not (0 <= sheet < len(_sheets)):
@@ -328,6 +330,7 @@ class XlsxWorkbook:  # noqa: D101
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal is_sharedstr
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -335,7 +338,8 @@ class XlsxWorkbook:  # noqa: D101
                         l_col = attrs["r"]
 
                         # ? check, if value is shared string index:
-                        if attrs.get("t") == "s":
+                        is_sharedstr = attrs.get("t") == "s"
+                        if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
-- 
2.43.0


From ef9cc98e59e01d7ffa9173057d4c8930a5bac5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 10/40] fix: classify XLSB number formats by their text

---
 rxls/core.py        |  6 ++++++
 rxls/reader/xlsb.py | 19 ++++++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/rxls/core.py b/rxls/core.py
index 0a22143..82da138 100644
--- a/rxls/core.py
+++ b/rxls/core.py
@@ -14,6 +14,7 @@ __all__ = [
     "struct_u",
     "u1_p",
     "u2_p",
+    "u2_u",
     "u4_p",
     "u4_u",
 ]
@@ -190,6 +191,11 @@ def u4_p(i: int) -> bytes:
     end_decl()
 
 
+@struct_u("<H")
+def u2_u(b: bytes) -> tuple[int]:
+    end_decl()
+
+
 @struct_p("<H")
 def u2_p(i: int) -> bytes:
     end_decl()
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index d94615b..dc18563 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -11,7 +11,7 @@ from zipfile import ZipFile
 import pyarrow as pa
 
 from ..biff import scan_biff
-from ..biff_recs import BrtBundleSh
+from ..biff_recs import BrtBundleSh, xstr
 from ..cell import cell
 from ..constants import (
     REPR_BOOLEAN,
@@ -22,7 +22,7 @@ from ..constants import (
     TYPE_NUMERIC,
     TYPE_STRING,
 )
-from ..core import u2_p, u4_p, u4_u
+from ..core import u2_p, u2_u, u4_p, u4_u
 from ..rels import Relationship
 
 if TYPE_CHECKING:
@@ -31,8 +31,9 @@ if TYPE_CHECKING:
 
     from typing_extensions import Self
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# ? Literals ("text", \c), padding (_c, *c), and bracketed parts which are not elapsed time
+re_xt = re.compile(r'".*?"|[\\_*].|\[(?!(?:hh?|mm?|ss?)\])[^\]]*\]')
 
 ERROR_STRINGS = frozenset(
     (
@@ -160,22 +161,18 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: xstr.from_binary(r.data[2:]).value
                 for r in scan_biff(io, {44})
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
-                if fmt == "0":
-                    ret.update(dict.fromkeys(xf_ids, 0x10))
-
-                    continue
-                if re_dt.search(re_xt.sub("", fmt)):
+                if re_dt.search(re_xt.sub("", fmt).split(";", 1)[0]):
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
-            ret.update((x for x, y in xfs.items() if y[0] in TEMPORAL_STYLES))
+            ret.update((x for x, y in xfs.items() if u2_u(y)[0] in TEMPORAL_STYLES))
 
             return frozenset(ret)  # type: ignore
 
-- 
2.43.0


From 3c4b09c815d2df398529fafe5fd4940282088c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 11/40] fix: classify XLSX number formats by their text,
 temporal ones with fractions too

---
 rxls/reader/xlsx.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index c4c4ef7..982e94d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -34,8 +34,9 @@ if TYPE_CHECKING:
 
     T = TypeVar("T")
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# ? Literals ("text", \c), padding (_c, *c), and bracketed parts which are not elapsed time
+re_xt = re.compile(r'".*?"|[\\_*].|\[(?!(?:hh?|mm?|ss?)\])[^\]]*\]')
 
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
@@ -215,7 +216,7 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal xfs, fms, xfs_id
 
                 if tag == "numFmt":
-                    fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
+                    fms[attrs["numFmtId"]] = attrs["formatCode"]
 
                 elif tag == "xf" and "xfId" in attrs:
                     xfs[str(xfs_id)] = attrs["numFmtId"]
@@ -229,12 +230,13 @@ class XlsxWorkbook:  # noqa: D101
 
         for f_id, fmt in fms.items():
             xf_id = [x for x, y in xfs.items() if y == f_id]
-            if fmt == "0" or ".00" in fmt:
-                ret_numerics.update(xf_id)
-
-            elif re_dt.search(re_xt.sub("", fmt)):
+            fmt = re_xt.sub("", fmt).split(";", 1)[0]
+            if re_dt.search(fmt):
                 ret_temporal.update(xf_id)
 
+            elif fmt == "0" or ".00" in fmt:
+                ret_numerics.update(xf_id)
+
         ret_temporal.update(
             (
                 x
-- 
2.43.0


From d8ac71a50809b0d9a37f85c337c7c911f6e63970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 12/40] fix: chart sheets and absolute sheet targets

---
 rxls/reader/xlsb.py | 11 +++++------
 rxls/reader/xlsx.py |  6 ++++--
 rxls/rels.py        |  5 +++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index dc18563..11b1544 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -107,17 +107,16 @@ class XlsbWorkbook:  # noqa: D101
         s_sheet_idx: dict[str, str] = {}
 
         with self.zf.open("xl/_rels/workbook.bin.rels", "r") as io:
-            wb_rels: list[Relationship] = Relationship.scan_xml(io)
+            wb_rels = {
+                x.Id: x.part for x in Relationship.scan_xml(io) if x.Type == "worksheet"
+            }
 
         with self.zf.open("xl/workbook.bin") as io:
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                sheet_file = "xl/" + next(
-                    x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
-                )
-
-                s_sheet_idx[_sheet.strName.value] = sheet_file
+                if _sheet.strRelID.value in wb_rels:
+                    s_sheet_idx[_sheet.strName.value] = wb_rels[_sheet.strRelID.value]
         return s_sheet_idx
 
     @cached_property
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 982e94d..335006c 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -137,7 +137,7 @@ class XlsxWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
                 if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = f"xl/{rel.Target}"
+                    rId_to_file[rel.Id] = rel.part
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
@@ -150,7 +150,9 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = st_handler
             parser.ParseFile(io)
-        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
+        return {
+            rId_to_name[x]: rId_to_file[x] for x in rId_to_name if x in rId_to_file
+        }
 
     @cached_property
     def shared(self) -> pa.LargeStringArray:
diff --git a/rxls/rels.py b/rxls/rels.py
index 16c5367..0fd3d9e 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -18,6 +18,11 @@ class Relationship:
     Type: str
     Target: str
 
+    @property
+    def part(self) -> str:
+        """Name of the target part: absolute, or relative to the workbook in `xl/`"""
+        return self.Target[1:] if self.Target[:1] == "/" else f"xl/{self.Target}"
+
     @staticmethod
     def scan_xml(io: IO[bytes]) -> list[Relationship]:
         ret = []
-- 
2.43.0


From 9f023c2012908d3144c10c3079ccf831518e7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 13/40] fix: an XLSX shared string is the whole text of its
 item

---
 rxls/reader/xlsx.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 335006c..e70ba7a 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -166,27 +166,38 @@ class XlsxWorkbook:  # noqa: D101
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
-            must_be = False
+            # ? Text of the current item: all of its runs, without phonetic hints
+            parts: list[str] = []
+            is_text = False
+            is_phonetic = False
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal must_be
+                nonlocal is_text, is_phonetic
                 if tag == "si":
-                    must_be = True
+                    parts.clear()
+                elif tag == "rPh":
+                    is_phonetic = True
+                elif tag == "t":
+                    is_text = not is_phonetic
 
             def cell_th(txt: str) -> None:
-                nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
-                    ret.append(txt)
-                    must_be = False
+                # NOTE: long texts are given in parts
+                if is_text:
+                    parts.append(txt)
 
             def cell_eh(tag: str) -> None:
-                nonlocal must_be
-                if tag == "si" and must_be:
-                    ret.append(None)  # type: ignore
-                    self.null_shared.add(str(len(ret) - 1))
-                    must_be = False
+                nonlocal is_text, is_phonetic
+                if tag == "t":
+                    is_text = False
+                elif tag == "rPh":
+                    is_phonetic = False
+                elif tag == "si":
+                    txt = "".join(parts).strip()
+                    if txt and not self.null_values(txt):
+                        ret.append(txt)
+                    else:
+                        ret.append(None)  # type: ignore
+                        self.null_shared.add(str(len(ret) - 1))
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From a200e80746ef92792898929210b9b8634c00e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 14/40] fix: XLSX cell texts in several parts and inline
 strings

---
 rxls/reader/xlsx.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index e70ba7a..2afe800 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -338,6 +338,10 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
+            # ? Text of the current cell, which may be given in parts
+            parts: list[str] = []
+            is_phonetic: bool = False
+
             # ? First row started event:
             row += 1
             if callback is not None:
@@ -345,7 +349,7 @@ class XlsxWorkbook:  # noqa: D101
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
-                nonlocal is_sharedstr
+                nonlocal is_sharedstr, is_phonetic
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -363,20 +367,26 @@ class XlsxWorkbook:  # noqa: D101
                             c_typ = TYPE_STRING | REPR_PREPARED
 
                         c_row = row
+                        parts.clear()
                     else:
                         return
+                elif tag == "rPh":
+                    is_phonetic = True
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
                 l_tag = tag
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
+                if l_tag in {"v", "t"} and not is_phonetic:
+                    parts.append(txt)
+
+            def cell_value() -> None:
                 nonlocal \
                     o_q, \
                     row, \
                     l_col, \
                     c_typ, \
-                    l_tag, \
                     is_empty_row, \
                     is_sharedstr, \
                     nullss, \
@@ -387,7 +397,7 @@ class XlsxWorkbook:  # noqa: D101
                 if skip_rows > row:
                     return
 
-                if l_tag == "v" and (txt := txt.strip()):
+                if txt := "".join(parts).strip():
                     if is_sharedstr:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
@@ -410,6 +420,7 @@ class XlsxWorkbook:  # noqa: D101
 
             def cell_eh(tag: str) -> None:
                 nonlocal tags, row, is_empty_row, callback, c_typ, c_row, l_tag
+                nonlocal is_phonetic
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -435,9 +446,17 @@ class XlsxWorkbook:  # noqa: D101
                         raise GeneratorExit
 
                 elif tag == "c":
+                    if l_tag:
+                        cell_value()
                     c_typ = 0
                     l_tag = None
 
+                elif l_tag:
+                    # ? Back in the cell
+                    l_tag = "c"
+                    if tag == "rPh":
+                        is_phonetic = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-- 
2.43.0


From 5a279b1e45b10e67e9a8c1d4923acef15299c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 15/40] fix: XLSX text cells stay text whatever their number
 format

---
 rxls/reader/xlsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2afe800..21fc8df 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -360,6 +360,9 @@ class XlsxWorkbook:  # noqa: D101
                         is_sharedstr = attrs.get("t") == "s"
                         if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
+                        # ? check, if value is text, whatever its number format
+                        elif attrs.get("t") in {"str", "inlineStr", "e"}:
+                            c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
                             c_typ = typ
-- 
2.43.0


From d6463bcfd3b058d13713f70d89323fc550d20d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 16/40] fix: a failure in the XLSX reading thread reaches the
 caller

---
 rxls/reader/xlsx.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 21fc8df..524be83 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -317,8 +317,7 @@ class XlsxWorkbook:  # noqa: D101
             take_rows: int,
             take_non_empty: bool,  # noqa: FBT001
             skip_cols: Sequence[int] | None,
-            o_q: Queue[cell | T],
-            sentinel: T,
+            o_q: Queue[cell],
             callback: Callable[[], None] | None,
             /,
         ) -> None:
@@ -344,8 +343,6 @@ class XlsxWorkbook:  # noqa: D101
 
             # ? First row started event:
             row += 1
-            if callback is not None:
-                callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
@@ -467,6 +464,8 @@ class XlsxWorkbook:  # noqa: D101
             parser.buffer_text = True
 
             try:
+                if callback is not None:
+                    callback()
                 parser.ParseFile(io)
             except ValueError as e:
                 if e.args[0] != "read from closed file.":
@@ -476,15 +475,22 @@ class XlsxWorkbook:  # noqa: D101
                     raise
             except GeneratorExit:
                 pass
+
+        def guarded(io: IO[bytes], *args) -> None:
+            try:
+                worker(io, *args)
+            except BaseException as e:  # noqa: BLE001
+                errors.append(e)
             finally:
                 o_q.put(sentinel)
 
         o_q: Queue[cell] = Queue()
         sentinel = object()
+        errors: list[BaseException] = []
 
         with self.zf.open(sheet_path) as io:
             Thread(
-                target=worker,
+                target=guarded,
                 args=(
                     io,
                     self.styles,
@@ -495,9 +501,12 @@ class XlsxWorkbook:  # noqa: D101
                     take_rows_non_empty,
                     skip_cols,
                     o_q,
-                    sentinel,
                     row_callback,
                 ),
             ).start()
 
             yield from iter(o_q.get, sentinel)
+
+        # ? The sheet was not read to its end: a part of it is not a result
+        if errors:
+            raise errors[0]
-- 
2.43.0


From d7c6310f4d2db031d8ea19622e319db63b0a62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 17/40] fix: rows of a column whose first cells are empty are
 not cut off

---
 rxls/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..82e8cf9 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,8 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        # NOTE: rows above the first cell belong to the column too (as nulls)
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From 6c40a0edcdcd5fd473a2b25a75c8c5896b8e7b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 18/40] fix: use the deduplicated column names

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..5f40c66 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -65,7 +65,7 @@ def __make_header(
 
         result_hdrs.append(n)
 
-    return hdrs
+    return result_hdrs
 
 
 def __find_header(
-- 
2.43.0


From 2404508357565624e06e6994a8153fc54a81dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 19/40] fix: name columns without a header as documented

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 5f40c66..8c2de28 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -204,7 +204,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                     msg,
                 )
     else:
-        header = [f"Unnamed. {i}" for i, _ in enumerate(columns)]
+        header = [f"Unnamed: {i}" for i, _ in enumerate(columns)]
 
     filters = []
     if row_filters:
-- 
2.43.0


From 19a1634e914f03dc8c87864d879c88b435815195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 20/40] fix: length of a sliced null chunk

---
 rxls/chunk/chunk.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..19befe5 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -54,25 +54,7 @@ def null_slice(x: int, index: slice) -> int:
     if not x:
         return 0
 
-    start = index.start or 0
-    if start < 0:
-        start = x + start
-
-    stop = index.stop or x
-    if stop < 0:
-        stop = x + stop
-
-    step = index.step or 1
-
-    if step < 0:
-        stop, start = start, stop
-        step = -step
-
-    if stop <= start:
-        return 0
-
-    itvl = stop - start
-    return itvl // step + bool(itvl % step)
+    return len(range(*index.indices(x)))
 
 
 @as_dataclass(mapping=True)
-- 
2.43.0


From bf076e61c0a2a848a04ce518fcba9eb6501d2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 21/40] fix: take_over with an offset only keeps all chunks
 below it

---
 rxls/chunk/chunk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 19befe5..bc2cd86 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -389,7 +389,8 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                # NOTE: zero `length` is no limit
+                if 0 < length <= cum_len:
                     break
 
         if length and cum_len < length:
-- 
2.43.0


From 635b5a9b7289ea34e3bac6f928d4cef28200d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 22/40] fix: sheets without rows below the header give empty
 columns

---
 rxls/chunk/chunk.py   | 1 +
 rxls/reader/common.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index bc2cd86..eca3eec 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -517,4 +517,5 @@ class chunk:  # noqa: D101, N801
 
         return pa.chunked_array(
             [x.arrow(dest_dtype=dtype) for x in chunks],  # type: ignore
+            dtype,
         ).combine_chunks()  # type: ignore
diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8c2de28..ec857d3 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -181,7 +181,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     # columns = {i: _columns.get(i, []) for i in range(min_col, max_col + 1)}
     columns = _columns
 
-    max_len = max(len(x) for x in columns.values())
+    max_len = max((len(x) for x in columns.values()), default=0)
 
     first_row = 0
 
@@ -238,7 +238,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             raise ValueError(msg)
 
     g_offset = header_height + first_row + skip_rows_after_header
-    g_length = max_len - header_height - skip_rows_after_header
+    g_length = max(max_len - header_height - skip_rows_after_header, 0)
 
     idx = None
     if filters:
-- 
2.43.0


From f9f5be19f781b4a871b411795b212d26fd027dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 23/40] fix: failed conflict resolution leaves all values as
 they are

---
 rxls/chunk/chunk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index eca3eec..beb2235 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -442,6 +442,9 @@ class chunk:  # noqa: D101, N801
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
 
+        # NOTE: chunks of the caller must not be replaced by converted ones
+        original, chunks = chunks, list(chunks)
+
         temp_idx = []
         nums_idx = []
         utf8_idx = []
@@ -491,6 +494,8 @@ class chunk:  # noqa: D101, N801
 
         if utf8_fallback:
             dtype = UTF8
+            # NOTE: some chunks may already be converted
+            chunks = original
         elif temp_idx:
             dtype = T_MS
         elif nums_idx:
-- 
2.43.0


From 5ba82bd45cb0e805298c9abe42a7af90c91f471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 24/40] fix: dates among shared strings are parsed from their
 text

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index beb2235..181a792 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -227,7 +227,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.arrow(), formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From 2f3624940068087f67885cea804141b118fae352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 25/40] fix: a shared string index out of range is an error,
 not a read out of bounds

---
 rxls/chunk/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
-- 
2.43.0


From a84252ff219fa5e340481f5196b783edca46a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 26/40] fix: numbers beyond int64 stay float64

---
 rxls/chunk/casts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..ca2b886 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -177,7 +177,11 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
         Is rounded input potentially integer array, or not
 
     """
-    return ~np.any(np.trunc(arr) != np.round(arr, int_threshold))
+    # NOTE: numbers out of int64 range are not integers
+    return ~np.any(
+        (np.trunc(arr) != np.round(arr, int_threshold))
+        | (np.abs(arr) >= np.float64(2**63))
+    )
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From 9c6c82eccaafd37810c7bf9db9cb6b69d04bc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 27/40] fix: serial dates are rounded to the nearest
 millisecond

---
 rxls/chunk/casts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index ca2b886..58ce563 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -90,7 +90,8 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
     # NOTE 2: 25_569 - actual days for backward compatibility reason (for dates greater or equal to 1900-03-01)
     # NOTE 3: 86_400_000 - milliseconds per day
 
-    return (
+    # NOTE 4: fractions of a day are not exact: the nearest millisecond is meant
+    return np.rint(
         (
             arr
             - (
@@ -286,7 +287,7 @@ if NUMBA_AVAILABLE:
             out[:] = (arr.astype(np.int32) << np.int32(2) | np.int32(2)).view(np.uint32)
 
         def __gu_f8_to_ms_win(arr: NDArray[np.float64], out: NDArray[np.int64]) -> None:
-            out[:] = (
+            out[:] = np.rint(
                 (
                     arr
                     - (
-- 
2.43.0


From 430e5743a67f9a1d41b6884b25e561c89ac718ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 28/40] fix: dtypes with parameters (unit, precision) are
 applied

---
 rxls/reader/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index ec857d3..4fc79e2 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -299,7 +299,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     if dtypes is not None:  # noqa: PLR1702
         if isinstance(dtypes, pa.DataType):
             for i in range(len(arrays)):
-                if arrays[i].type.id != dtypes.id:  # type: ignore
+                if arrays[i].type != dtypes:
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
                     except Exception:  # noqa: BLE001
@@ -311,7 +311,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             for i, col in enumerate(header):
                 if col in dtypes:
                     dtype = dtypes[col]
-                    if arrays[i].type.id != dtype.id:
+                    if arrays[i].type != dtype:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
                         except Exception:  # noqa: BLE001
@@ -327,7 +327,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 )
 
             for i, dtype in enumerate(dtypes):
-                if arrays[i].type.id != dtype.id:
+                if arrays[i].type != dtype:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
                     except Exception:  # noqa: BLE001
-- 
2.43.0


From e58cd2c73e9544ab15f402b6d7300ef2979b3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 29/40] fix: texts of dates before 1970 and of midnight are
 parsed as they are

---
 rxls/chunk/casts.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 58ce563..8698be6 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -19,6 +19,7 @@ __all__ = [
     "rk_to_f8",
 ]
 
+import re
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -608,6 +609,20 @@ def _unsafe_strings_to_array(
 
 _unsafe_strings_to_array = np.fromiter  # type: ignore
 
+# ? Marks strings, which are not parsed yet
+UNPARSED = np.iinfo(np.int64).min
+
+TIME_DIRECTIVES = re.compile(r"%[-_]?(?:\.?\d?f|[HIMSTRrpPklXzZ%nt])")
+
+
+def _parsed(arr: pa.TimestampArray, format: str, /) -> NDArray[np.int64]:
+    """Parsed milliseconds (only time of day, if there is no date in format), or `UNPARSED`"""
+    ret = _unsafe_array(arr, np.int64)
+    if "%" not in TIME_DIRECTIVES.sub("", format):
+        ret = ret % np.int64(86_400_000)
+    return np.where(arr.is_null().to_numpy(zero_copy_only=False), UNPARSED, ret)
+
+
 if POLARS_AVAILABLE:
     import polars as pl
 
@@ -631,13 +646,12 @@ if POLARS_AVAILABLE:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
 
         """
-        ret = _unsafe_array(
+        return _parsed(
             pl.from_arrow(arr)
             .str.strptime(pl.Datetime("ms"), format, strict=False)  # type: ignore
             .to_arrow(),
-            np.int64,
+            format,
         )
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
 
 else:
     DEFAULT_TIME_FORMATS: tuple[str, ...] = (
@@ -661,8 +675,7 @@ else:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
 
         """
-        ret = _unsafe_array(strptime(arr, format, "ms", True), np.int64)
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
+        return _parsed(strptime(arr, format, "ms", True), format)
 
 
 DEFAULT_DATE_FORMATS: tuple[str, ...] = (
@@ -727,7 +740,7 @@ def mf_strptime(
         If one or more values cannot be recognized as temporal, using given formats.
 
     """
-    result = np.repeat(np.int64(0), len(arr))
+    result = np.repeat(UNPARSED, len(arr))
 
     if not formats:
         formats = (
@@ -737,11 +750,11 @@ def mf_strptime(
         )
 
     for format in formats:
-        result = np.where(result == 0, _strptime(arr, format), result)
+        result = np.where(result == UNPARSED, _strptime(arr, format), result)
 
-        if np.all(result > np.int64(0)):
+        if np.all(result != UNPARSED):
             return result
 
-    if strict and np.any(result == 0):
+    if strict and np.any(result == UNPARSED):
         raise pa.ArrowInvalid
     return result
-- 
2.43.0


From c7811a048cf759000ab51f9a1d61b00e6fd67067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 30/40] fix: RK numbers of negative and of large values

---
 rxls/chunk/casts.py | 51 ++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 8698be6..fad694c 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -140,19 +140,19 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
 
 
 def f8_to_rk(arr: NDArray[np.float64]) -> NDArray[np.uint32]:
+    # NOTE: integer part of RkNumber has 30 bits (with sign)
+    cents = np.rint(arr * np.float64(100.0))
+    limit = np.float64(2**29)
+
     return np.where(
-        arr == np.round(arr, 2),
+        (np.trunc(arr) == arr) & (arr >= -limit) & (arr < limit),
+        ((arr.astype(np.int32) << np.int32(2)) | np.int32(2)).view(np.uint32),
         np.where(
-            np.trunc(arr) == np.round(arr, 2),
-            ((arr + np.float64(0.001)).astype(np.int32) << np.int32(2)) | np.int32(2),
-            (
-                (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
-                << np.int32(2)
-            )
-            | np.int32(3),
-        ).view(np.uint32),
-        (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
-        & np.uint32(0xFFFFFFFC),
+            (cents / np.float64(100.0) == arr) & (cents >= -limit) & (cents < limit),
+            ((cents.astype(np.int32) << np.int32(2)) | np.int32(3)).view(np.uint32),
+            (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
+            & np.uint32(0xFFFFFFFC),
+        ),
     )
 
 
@@ -262,23 +262,22 @@ if NUMBA_AVAILABLE:
             )
 
         def __gu_f8_to_rk(arr: NDArray[np.float64], out: NDArray[np.uint32]) -> None:
+            cents = np.rint(arr * np.float64(100.0))
+            limit = np.float64(2**29)
+
             out[:] = np.where(
-                arr == np.round(arr, 2),
+                (np.trunc(arr) == arr) & (arr >= -limit) & (arr < limit),
+                ((arr.astype(np.int32) << np.int32(2)) | np.int32(2)).view(np.uint32),
                 np.where(
-                    np.trunc(arr) == np.round(arr, 2),
-                    (
-                        (arr + np.float64(0.001)).astype(np.int64).astype(np.int32)
-                        << np.int32(2)
-                    )
-                    | np.int32(2),
-                    (
-                        (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
-                        << np.int32(2)
-                    )
-                    | np.int32(3),
-                ).view(np.uint32),
-                (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
-                & np.uint32(0xFFFFFFFC),
+                    (cents / np.float64(100.0) == arr)
+                    & (cents >= -limit)
+                    & (cents < limit),
+                    ((cents.astype(np.int32) << np.int32(2)) | np.int32(3)).view(
+                        np.uint32,
+                    ),
+                    (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
+                    & np.uint32(0xFFFFFFFC),
+                ),
             )
 
         def __gu_i8_to_rk(
-- 
2.43.0


From ae7d8f42a0310df3304c7099f54feec38d3ed582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 31/40] fix: shared string references beyond 32 bits are not
 wrapped

---
 rxls/chunk/chunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 181a792..b6afed5 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -114,8 +114,9 @@ class chunk:  # noqa: D101, N801
                 shareds = EMPTY_SHAREDS
             return chunk(
                 _unsafe_arrow(
-                    _unsafe_strings_to_array(data, np.uint32, data_len),
-                    UI_4,
+                    # NOTE: an index out of uint32 must not turn into another one
+                    _unsafe_strings_to_array(data, np.int64, data_len),
+                    I__8,
                 ),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
-- 
2.43.0


From cbe6413b98763da36e867913853f7eed38f117ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 32/40] fix: no failure of a callback or predicate ends an XLSX
 sheet silently

---
 rxls/reader/xlsx.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 524be83..5defbeb 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -87,6 +87,10 @@ TEMPORAL_STYLES = frozenset(
 NUMERIC_STYLES = frozenset([0x01, 0x02, 0x03, 0x04, 0x25, 0x26, 0x27, 0x28, 0x30])
 
 
+class EndOfRows(Exception):  # noqa: N818
+    """All requested rows are read"""
+
+
 class XlsxWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -443,7 +447,7 @@ class XlsxWorkbook:  # noqa: D101
 
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
-                        raise GeneratorExit
+                        raise EndOfRows
 
                 elif tag == "c":
                     if l_tag:
@@ -467,13 +471,7 @@ class XlsxWorkbook:  # noqa: D101
                 if callback is not None:
                     callback()
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
-                    raise
-            except GeneratorExit:
+            except EndOfRows:
                 pass
 
         def guarded(io: IO[bytes], *args) -> None:
-- 
2.43.0


From 37f4af7a2b725a8cfbd75e9ff306bc48c0f05098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 33/40] fix: big numbers are whole by their exact fraction

---
 rxls/chunk/casts.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index fad694c..eda0f65 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -180,10 +180,17 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
 
     """
     # NOTE: numbers out of int64 range are not integers
-    return ~np.any(
-        (np.trunc(arr) != np.round(arr, int_threshold))
-        | (np.abs(arr) >= np.float64(2**63))
-    )
+    fits = np.abs(arr) < np.float64(2**63)
+    arr = np.where(fits, arr, np.float64(0))
+    whole = np.trunc(arr)
+
+    # NOTE: rounding of big numbers to some decimals is not exact, but it is for their fractions
+    if int_threshold > 0:
+        rest = np.round(arr - whole, int_threshold)
+    else:
+        rest = np.round(arr, int_threshold) - whole
+
+    return np.all(fits & (rest == 0))
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From 99a2d117e03c7855d71dda12a6722b437cfaab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 34/40] fix: escape the attributes of a written relationship

---
 rxls/rels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index 0fd3d9e..3a588f0 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 __all__ = ["Relationship"]
 
 from typing import IO
+from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
@@ -47,5 +48,5 @@ class Relationship:
 
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
-            f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
+            f"<Relationship Id={quoteattr(self.Id)} Type={quoteattr(f'{RELS_NS}/{self.Type}')} Target={quoteattr(self.Target)}/>".encode(),
         )
-- 
2.43.0


From cd8a72181203ecf173301cbe4a5d9afa408c4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:40 +0000
Subject: [PATCH 35/40] fix: timestamps before 1970, and the start of
 1970-01-02, have a date part

---
 rxls/chunk/casts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index eda0f65..e0be224 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -226,7 +226,8 @@ def dt_has_d(arr: NDArray[np.int64]) -> np.bool_:
         Have any of this timestamps date part or not
 
     """
-    return np.any(arr > np.uint64(86_400_000))
+    # ? Times of day are on 1970-01-01
+    return np.any((arr < 0) | (arr >= 86_400_000))
 
 
 if NUMBA_AVAILABLE:
-- 
2.43.0


From 814f37298fe6997bdfe582ac0cef1464d2a956f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 36/40] fix: boolean masks of more than 8 values, and slices,
 are converted in order

---
 rxls/chunk/casts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index e0be224..d4f7edf 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -581,9 +581,11 @@ def _unsafe_bool_arrow_to_numpy(arr: pa.BooleanArray) -> NDArray[np.bool_]:
         Output numpy boolean array
 
     """
-    return np.unpackbits(np.frombuffer(arr.buffers()[-1], np.uint8))[-len(arr) :][  # type: ignore
-        ::-1
-    ].view(np.bool_)
+    return np.unpackbits(
+        np.frombuffer(arr.buffers()[-1], np.uint8),  # type: ignore
+        count=arr.offset + len(arr),
+        bitorder="little",
+    )[arr.offset :].view(np.bool_)
 
 
 def _unsafe_strings_to_array(
-- 
2.43.0


From fd6ab001b45d6632f7249df7770354db37be5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 37/40] fix: workbooks without a styles part can be read

---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 11b1544..3bb3c9e 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -146,6 +146,9 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        if "xl/styles.bin" not in self.zf.namelist():
+            return frozenset()
+
         with self.zf.open("xl/styles.bin") as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 5defbeb..0b101b7 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -219,6 +219,9 @@ class XlsxWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        if "xl/styles.xml" not in self.zf.namelist():
+            return {}
+
         ret_temporal: set[str] = set()
         ret_numerics: set[str] = set()
 
-- 
2.43.0


From e7d94934275d5b39fb3adf0e035593c749965a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 38/40] fix: chunks converted by as_numeric and as_temporal
 know their size

They had size 0, so that take_over dropped their cells.
---
 rxls/chunk/chunk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index b6afed5..cbf21d1 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -217,6 +217,7 @@ class chunk:  # noqa: D101, N801
         return chunk(
             _unsafe_array(self.arrow(dest_dtype=F__8), np.float64),
             TYPE_NUMERIC | REPR_PREPARED,
+            self.size,
         )
 
     def as_temporal(self, formats: tuple[str, ...] | None = None) -> chunk:
@@ -225,11 +226,12 @@ class chunk:  # noqa: D101, N801
             if self.type & REPR_TEMPORAL:
                 return self
             if self.type & REPR_PREPARED:
-                return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
-            return chunk(self.data, self.type | REPR_TEMPORAL)
+                return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL, self.size)
+            return chunk(self.data, self.type | REPR_TEMPORAL, self.size)
         return chunk(
             mf_strptime(self.arrow(), formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
+            self.size,
         )  # type: ignore
 
     def take(self, index: int | pa.BooleanArray | slice) -> chunk:
-- 
2.43.0


From 7aa8250237c2ece6be6aff84accd205157314d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 39/40] fix: null chunks can be prepared and taken as temporal

Both failed, while as_numeric gives the chunk itself.
---
 rxls/chunk/chunk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index cbf21d1..ba769ed 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -198,7 +198,7 @@ class chunk:  # noqa: D101, N801
 
     def prepare(self) -> Self:
         """Compile inner data to actual representation, and return in new chunk."""
-        if not (self.type & REPR_PREPARED):
+        if self.type and not (self.type & REPR_PREPARED):
             if self.type & TYPE_STRING:
                 self.data = take(self.sref, self.data)  # type: ignore
                 self.type = TYPE_STRING | REPR_PREPARED
@@ -222,6 +222,8 @@ class chunk:  # noqa: D101, N801
 
     def as_temporal(self, formats: tuple[str, ...] | None = None) -> chunk:
         """Cast chunk to temporal (`formats` argument used for strings inner data)"""
+        if not self.type:
+            return self
         if self.type & TYPE_NUMERIC:
             if self.type & REPR_TEMPORAL:
                 return self
-- 
2.43.0


From 2a54249cc1f28b742d5a81aacbea83fc09e4540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:06 +0000
Subject: [PATCH 40/40] fix: XLSX cell formats without xfId or numFmtId keep
 their place

---
 rxls/reader/xlsx.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 0b101b7..8ae8d41 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -227,23 +227,35 @@ class XlsxWorkbook:  # noqa: D101
 
         xfs_id = 0
         xfs: dict[str, str] = {}
+        in_cell_xfs = False
 
         fms: dict[str, str] = {}
 
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id
+                nonlocal xfs, fms, xfs_id, in_cell_xfs
 
                 if tag == "numFmt":
                     fms[attrs["numFmtId"]] = attrs["formatCode"]
 
-                elif tag == "xf" and "xfId" in attrs:
-                    xfs[str(xfs_id)] = attrs["numFmtId"]
+                elif tag == "cellXfs":
+                    in_cell_xfs = True
+
+                # NOTE: all attributes of the cell format are optional
+                elif tag == "xf" and in_cell_xfs:
+                    xfs[str(xfs_id)] = attrs.get("numFmtId", "0")
                     xfs_id += 1
 
+            def cell_eh(tag: str) -> None:
+                nonlocal in_cell_xfs
+
+                if tag == "cellXfs":
+                    in_cell_xfs = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
+            parser.EndElementHandler = cell_eh
             parser.buffer_text = True
 
             parser.ParseFile(io)
-- 
2.43.0

