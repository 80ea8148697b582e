From 85cafacf31e97478ee6145436cea50cf7cdfee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:31 +0000
Subject: [PATCH 01/19] fix: check_xml_file must honour model_type

---
 aas_test_engines/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d1ad9c6..f482034 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -48,7 +48,7 @@ def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: st
         data = ElementTree.fromstring(file.read())
     except ElementTree.ParseError as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
-    return check_xml_data(data, version)
+    return check_xml_data(data, version, model_type)
 
 
 TYPE_AASX_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
-- 
2.43.0


From 880ccc40ca112d388005131ecc520d7e11b925e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:37 +0000
Subject: [PATCH 02/19] fix: xs:decimal, xs:float and xs:double accepted
 non-XSD literals and rejected the largest values

---
 aas_test_engines/data_types.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6785f9b..85f169e 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -1,26 +1,26 @@
-from decimal import Decimal, DecimalException
 from typing import Pattern, Dict, Mapping
 import re
 import base64
 from enum import Enum
 
 
+_REGEX_MATCHES_DECIMAL = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")
+
+
 def is_decimal(s: str) -> bool:
-    try:
-        Decimal(s)
-        return True
-    except DecimalException:
-        return False
+    return _REGEX_MATCHES_DECIMAL.fullmatch(s.strip()) is not None
+
+
+_REGEX_MATCHES_DOUBLE = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?")
 
 
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
     if s in ["INF", "-INF", "NaN"]:
         return True
-    try:
-        v = float(s)
-        return v > min and v < max
-    except ValueError:
+    if _REGEX_MATCHES_DOUBLE.fullmatch(s.strip()) is None:
         return False
+    v = float(s)
+    return v >= min and v <= max
 
 
 def is_float(s: str) -> bool:
-- 
2.43.0


From 00d9c8e70219c7d7a66716c0837c5ea0b1e4c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:43 +0000
Subject: [PATCH 03/19] fix: integer types accepted underscores and non-ASCII
 digits and rejected very long literals

---
 aas_test_engines/data_types.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 85f169e..c416d9c 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -31,12 +31,19 @@ def is_double(s: str) -> bool:
     return _is_bounded_double(s, -1.7976931348623158e308, 1.7976931348623158e308)
 
 
-def _is_bounded_integer(s: int, min: int, max: int) -> bool:
-    try:
-        v = int(s)
-        return v >= min and v <= max
-    except ValueError:
+_REGEX_MATCHES_INTEGER = re.compile(r"([+-]?)0*([0-9]+)")
+
+
+def _is_bounded_integer(s: str, min: int, max: int) -> bool:
+    match = _REGEX_MATCHES_INTEGER.fullmatch(s.strip())
+    if match is None:
         return False
+    sign, digits = match.groups()
+    # Python refuses to convert very long strings to int, these are beyond all finite bounds anyway
+    v = int(digits) if len(digits) < 100 else float("inf")
+    if sign == "-":
+        v = -v
+    return v >= min and v <= max
 
 
 def is_hex_binary(s: str) -> bool:
-- 
2.43.0


From 5c4fd3de3cc777def24bd73f0a9dbcf29b142cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:48 +0000
Subject: [PATCH 04/19] fix: xs:hexBinary and xs:base64Binary accepted
 characters outside their alphabet

---
 aas_test_engines/data_types.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index c416d9c..6bbcb0c 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -47,11 +47,7 @@ def _is_bounded_integer(s: str, min: int, max: int) -> bool:
 
 
 def is_hex_binary(s: str) -> bool:
-    try:
-        bytes.fromhex(s)
-        return True
-    except (KeyError, ValueError):
-        return False
+    return re.fullmatch(r"([0-9a-fA-F]{2})*", s) is not None
 
 
 def _is_leap_year(year: int) -> bool:
@@ -277,11 +273,8 @@ def is_any_uri(s: str) -> bool:
 
 
 def is_base64_binary(s: str) -> bool:
-    try:
-        base64.b64decode(s)
-        return True
-    except ValueError:
-        return False
+    s = re.sub(r"[ \t\r\n]", "", s)
+    return re.fullmatch(r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", s) is not None
 
 
 def _construct_matches_bcp_47() -> Pattern[str]:
-- 
2.43.0


From 570f91811d5d7e538ab493590698b1491479aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:54 +0000
Subject: [PATCH 05/19] fix: dates, URIs, language tags and versions must not
 end with a newline

---
 aas_test_engines/data_types.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6bbcb0c..3ebc946 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -99,7 +99,7 @@ _DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
 def is_xs_date(value: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE.match(value) is None:
+    if _REGEX_MATCHES_XS_DATE.fullmatch(value) is None:
         return False
 
     match = _DATE_PREFIX_RE.match(value)
@@ -147,7 +147,7 @@ _REGEX_MATCHES_XS_DATE_TIME = _construct_matches_xs_date_time()
 
 
 def is_xs_date_time(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -174,7 +174,7 @@ _REGEX_MATCHES_XS_DATE_TIME_UTC = _construct_matches_xs_date_time_utc()
 
 
 def is_xs_date_time_utc(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME_UTC.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME_UTC.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -256,7 +256,7 @@ _REGEX_MATCHES_XS_G_MONTH_DAY = _construct_matches_xs_g_month_day()
 
 
 def is_xs_g_month_day(s: str) -> bool:
-    if _REGEX_MATCHES_XS_G_MONTH_DAY.match(s) is None:
+    if _REGEX_MATCHES_XS_G_MONTH_DAY.fullmatch(s) is None:
         return False
     month = int(s[2:4])
     day = int(s[5:7])
@@ -269,7 +269,7 @@ _REGEX_MATCHES_XS_ANY_URI = _construct_matches_xs_any_uri()
 
 
 def is_any_uri(s: str) -> bool:
-    return _REGEX_MATCHES_XS_ANY_URI.match(s) is not None
+    return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None
 
 
 def is_base64_binary(s: str) -> bool:
@@ -301,7 +301,7 @@ _REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()
 
 
 def is_bcp_lang_string(s: str) -> bool:
-    return _REGEX_MATCHES_BCP_47.match(s) is not None
+    return _REGEX_MATCHES_BCP_47.fullmatch(s) is not None
 
 
 def _construct_matches_version_type() -> Pattern[str]:
@@ -313,14 +313,14 @@ _REGEX_MATCHES_VERSION_TYPE = _construct_matches_version_type()
 
 
 def is_version_string(text: str) -> bool:
-    return _REGEX_MATCHES_VERSION_TYPE.match(text) is not None
+    return _REGEX_MATCHES_VERSION_TYPE.fullmatch(text) is not None
 
 
 _REGEX_IS_BCP_47_FOR_ENGLISH = re.compile("^(en|EN)(-.*)?$")
 
 
 def is_bcp_47_for_english(text: str) -> bool:
-    return _REGEX_IS_BCP_47_FOR_ENGLISH.match(text) is not None
+    return _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text) is not None
 
 
 class DataTypeDefXsd(Enum):
-- 
2.43.0


From 5ec55da19c06b274c6491b20c5907264d59f868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:59 +0000
Subject: [PATCH 06/19] fix: xs:date and xs:dateTime crashed on very long years

---
 aas_test_engines/data_types.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 3ebc946..e8924d4 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -95,7 +95,7 @@ def _construct_matches_xs_date() -> Pattern[str]:
 
 _REGEX_MATCHES_XS_DATE = _construct_matches_xs_date()
 
-_DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
+_DATE_PREFIX_RE = re.compile(r"^(-?)([0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
 def is_xs_date(value: str) -> bool:
@@ -105,9 +105,11 @@ def is_xs_date(value: str) -> bool:
     match = _DATE_PREFIX_RE.match(value)
     assert match is not None
 
-    year = int(match.group(1))
-    month = int(match.group(2))
-    day = int(match.group(3))
+    # The leap year rule only depends on the last digits and Python refuses to convert very long strings to int
+    sign, digits = match.group(1), match.group(2)
+    year = int(sign + (digits if len(digits) <= 4 else "1" + digits[-4:]))
+    month = int(match.group(3))
+    day = int(match.group(4))
 
     if year == 0:
         return False
-- 
2.43.0


From 230c1684c6389747828e85f376264954a868c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:05 +0000
Subject: [PATCH 07/19] fix: accept abbreviated IPv6 addresses in URIs

---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index e8924d4..06ed852 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -217,7 +217,7 @@ def _construct_matches_xs_any_uri() -> Pattern[str]:
     dec_octet = "([0-9]|[1-9][0-9]|1[0-9]{2}|2[0-4][0-9]|25[0-5])"
     ipv4address = f"{dec_octet}\\.{dec_octet}\\.{dec_octet}\\.{dec_octet}"
     ls32 = f"({h16}:{h16}|{ipv4address})"
-    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{3}}{h16})?::{h16}:{ls32}|(({h16}:){{4}}{h16})?::{ls32}|(({h16}:){{5}}{h16})?::{h16}|(({h16}:){{6}}{h16})?::)"
+    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{0,2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{0,3}}{h16})?::{h16}:{ls32}|(({h16}:){{0,4}}{h16})?::{ls32}|(({h16}:){{0,5}}{h16})?::{h16}|(({h16}:){{0,6}}{h16})?::)"
     unreserved = "[a-zA-Z0-9\\-._~]"
     ipvfuture = f"[vV][0-9A-Fa-f]+\\.({unreserved}|{sub_delims}|:)+"
     ip_literal = f"\\[({ipv6address}|{ipvfuture})\\]"
-- 
2.43.0


From 9623f6a3656375a8938cf4b411612e7a39ff7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 08/19] fix: follow the relationships of package parts in the
 root directory

---
 aas_test_engines/opc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index f618451..030d7a9 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -100,7 +100,7 @@ def _scan_relationships(
             Level.ERROR,
         )
 
-    if dir:
+    if dir or file:
         result = AasTestResult(f"Checking relationships of {dir}{file}")
     else:
         result = AasTestResult(f"Checking root relationship")
@@ -142,7 +142,8 @@ def _scan_relationships(
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
-        r = _scan_relationships(zipfile, sub_rel, sub_dir + "/", file, visited_targets, deprecated_types)
+        sub_dir = sub_dir + "/" if sub_dir else ""
+        r = _scan_relationships(zipfile, sub_rel, sub_dir, file, visited_targets, deprecated_types)
         if r:
             result.append(r)
 
-- 
2.43.0


From c99c9bde3d6d7315e9cdb44d2f66ba086d3b76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:26 +0000
Subject: [PATCH 09/19] fix: check the specs of an origin which is reached
 through several relationships

---
 aas_test_engines/opc.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 030d7a9..48164e5 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -52,11 +52,14 @@ class Relationship:
     def sub_rels_by_type(self, type: str) -> List["Relationship"]:
         return [i for i in self.sub_rels if i.type == type]
 
-    def dump(self, indent=0):
+    def dump(self, indent=0, parents=()):
         type_suffix = self.type.split("/")[-1]
         print("  " * indent + f"{self.target} [{type_suffix}]")
+        if self.target in parents:
+            # cyclic
+            return
         for sub_rel in self.sub_rels:
-            sub_rel.dump(indent + 1)
+            sub_rel.dump(indent + 1, (*parents, self.target))
 
 
 def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
@@ -84,7 +87,7 @@ def _scan_relationships(
     parent_rel: Relationship,
     dir: str,
     file: str,
-    visited_targets: Set[str],
+    visited_targets: Dict[str, Relationship],
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
@@ -137,8 +140,10 @@ def _scan_relationships(
         parent_rel.sub_rels.append(sub_rel)
         if target in visited_targets:
             result.append(AasTestResult(f"Already checked {target}", Level.INFO))
+            # The same part reached again, i.e. it has the same relationships
+            sub_rel.sub_rels = visited_targets[target].sub_rels
             continue
-        visited_targets.add(target)
+        visited_targets[target] = sub_rel
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
@@ -154,7 +159,7 @@ def _check_relationships(
     zipfile: zipfile.ZipFile, root_rel: Relationship, deprecated_types: Dict[str, str]
 ) -> AasTestResult:
     result = AasTestResult("Checking relationships")
-    visited_targets = set()
+    visited_targets: Dict[str, Relationship] = {}
     r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
     if r:
         result.append(r)
-- 
2.43.0


From 492c4593a130d8703da63819b8b14c654ed33ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:31 +0000
Subject: [PATCH 10/19] fix: report damaged packages instead of crashing

---
 aas_test_engines/file.py | 30 +++++++++++++++++++++++-------
 aas_test_engines/opc.py  |  4 ++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index f482034..b2380ad 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -6,6 +6,8 @@ from .opc import Relationship, read_opc
 
 from xml.etree import ElementTree
 import zipfile
+import lzma
+import zlib
 
 from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj
 from aas_test_engines.test_cases.v3_0.submodel_templates import supported_templates
@@ -93,16 +95,30 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
     return result
 
 
+# Anything which may happen when reading from a damaged, truncated, encrypted or unsupported archive
+ZIP_READ_ERRORS = (
+    zipfile.BadZipFile,
+    zlib.error,
+    lzma.LZMAError,
+    NotImplementedError,
+    RuntimeError,
+    OSError,
+    EOFError,
+    ValueError,
+)
+
+
 def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -> AasTestResult:
 
     result = AasTestResult("Checking AASX package")
     root_rel = Relationship("ROOT", "/")
-    read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
-    if not result.ok():
-        return result
-    result.append(_check_files(zipfile, root_rel, version))
-    if not result.ok():
-        return result
+    try:
+        read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
+        if not result.ok():
+            return result
+        result.append(_check_files(zipfile, root_rel, version))
+    except ZIP_READ_ERRORS as e:
+        result.append(AasTestResult(f"Cannot read package: {e}", Level.ERROR))
 
     return result
 
@@ -110,7 +126,7 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-    except zipfile.BadZipFile as e:
+    except ZIP_READ_ERRORS as e:
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 48164e5..765507e 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -78,6 +78,8 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
                 )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        result.append(AasTestResult(f"Invalid xml: {e}", Level.ERROR))
 
     return result
 
@@ -96,6 +98,8 @@ def _scan_relationships(
     except KeyError:
         # file does not exist
         return None
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        return AasTestResult(f"Invalid xml in {dir}_rels/{file}.rels: {e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
         return AasTestResult(
-- 
2.43.0


From 372571f61ad6cff7cacca700770a5a6faf454f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:55 +0000
Subject: [PATCH 11/19] fix: report undecodable JSON and XML files instead of
 crashing

---
 aas_test_engines/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index b2380ad..d6f8b64 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -33,7 +33,8 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = json.load(file)
-    except json.decoder.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
+        # not only JSONDecodeError, but also wrong encoding or numbers with too many digits
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
 
@@ -48,7 +49,8 @@ def check_xml_data(
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = ElementTree.fromstring(file.read())
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        # not only ParseError, but also unknown encodings
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
     return check_xml_data(data, version, model_type)
 
-- 
2.43.0


From cc4ce3543b290c12d1c994bc5c8b73dc7ba407c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:00 +0000
Subject: [PATCH 12/19] fix: report too deeply nested documents instead of
 crashing

---
 aas_test_engines/file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d6f8b64..e596224 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -26,7 +26,10 @@ def latest_version():
 
 
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
-    result, obj = json_to_obj(data, model_type)
+    try:
+        result, obj = json_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Data is nested too deeply", Level.ERROR)
     return result
 
 
@@ -42,7 +45,10 @@ def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: s
 def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
-    result, obj = xml_to_obj(data, model_type)
+    try:
+        result, obj = xml_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Data is nested too deeply", Level.ERROR)
     return result
 
 
-- 
2.43.0


From 08302b76c945dd6d98202cf89f91d75c743dddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:05 +0000
Subject: [PATCH 13/19] fix: send the additional headers of the client

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 1a18b1e..572e7dd 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -70,6 +70,6 @@ class HttpClient:
             url=host + url,
             method=request.method,
             data=body,
-            headers=request.headers,
+            headers={**self.additional_headers, **request.headers},
             verify=self.verify,
         )
-- 
2.43.0


From 93985aaaeffb75cbf6123a44cd86dc79f57074a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:10 +0000
Subject: [PATCH 14/19] fix: derived clients must keep the prefixes and the
 class of their parent

---
 aas_test_engines/http.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 572e7dd..61fe86e 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -4,6 +4,7 @@ from requests.models import Response
 from dataclasses import dataclass, field
 from urllib.parse import urlencode
 import json
+import copy
 
 
 @dataclass
@@ -45,8 +46,8 @@ class HttpClient:
         self.additional_headers = additional_headers
 
     def descend(self, prefix: str):
-        result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
-        result.prefixes.append(prefix)
+        result = copy.copy(self)
+        result.prefixes = self.prefixes + [prefix]
         return result
 
     def send(self, request: Request) -> Response:
-- 
2.43.0


From dd2831c76a39b19a5307bd32724bba904d0c9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:15 +0000
Subject: [PATCH 15/19] fix: serialize boolean query parameters as true/false

---
 aas_test_engines/http.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 61fe86e..51f0674 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -7,6 +7,12 @@ import json
 import copy
 
 
+def _query_value(value: any) -> any:
+    if isinstance(value, bool):
+        return "true" if value else "false"
+    return value
+
+
 @dataclass
 class Request:
     path: str
@@ -18,7 +24,7 @@ class Request:
 
     def make_url(self) -> str:
         url = self.path
-        query_params = {k: v for k, v in self.query_parameters.items() if v is not None}
+        query_params = {k: _query_value(v) for k, v in self.query_parameters.items() if v is not None}
         if query_params:
             url += "?" + urlencode(query_params)
         return url
-- 
2.43.0


From c2bd6f9a69fbc20332528130715484517b31c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:03 +0000
Subject: [PATCH 16/19] fix: contexts catching all exceptions must not swallow
 KeyboardInterrupt and SystemExit

---
 aas_test_engines/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/result.py b/aas_test_engines/result.py
index 952067d..8b87751 100644
--- a/aas_test_engines/result.py
+++ b/aas_test_engines/result.py
@@ -127,7 +127,7 @@ class ContextManager:
             if managers:
                 managers[-1].result.append(self.result)
             return True
-        elif self.catch_all_exceptions:
+        elif self.catch_all_exceptions and isinstance(exc_val, Exception):
             self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))
             if managers:
                 managers[-1].result.append(self.result)
-- 
2.43.0


From f4c23e2bea80ccea47be23618b6272ef661bde4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:52 +0000
Subject: [PATCH 17/19] fix: refuse unknown versions on the command line
 without a traceback

---
 aas_test_engines/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index ddd0e53..3c79c16 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -106,6 +106,7 @@ def run_api_test(argv):
         available_suites = api.supported_versions()[args.version]
     except KeyError:
         sys.stderr.write(f"Unknown version, must be one of {api.supported_versions().keys()}\n")
+        sys.exit(1)
     suites = [i for i in available_suites if args.suite in i]
     if len(suites) == 0:
         sys.stderr.write(f"Unknown suite '{args.suite}', must be one of:\n")
-- 
2.43.0


From 1e38e9181d54347a646de2ccebe4002d963a361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:58 +0000
Subject: [PATCH 18/19] fix: all --header options must be used, not only the
 last one

---
 aas_test_engines/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index 3c79c16..3a54252 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -81,6 +81,7 @@ def run_api_test(argv):
     parser.add_argument(
         "--header",
         nargs="+",
+        action="extend",
         default=[],
         type=_parse_header_value,
         help="Additional headers in the format header:value",
-- 
2.43.0


From 0ed200156aeaf82030b47a2cd1aff81842232fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:31 +0000
Subject: [PATCH 19/19] fix: only XML white space may surround numbers

---
 aas_test_engines/data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 06ed852..0932ce2 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -8,7 +8,7 @@ _REGEX_MATCHES_DECIMAL = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")
 
 
 def is_decimal(s: str) -> bool:
-    return _REGEX_MATCHES_DECIMAL.fullmatch(s.strip()) is not None
+    return _REGEX_MATCHES_DECIMAL.fullmatch(s.strip(" \t\r\n")) is not None
 
 
 _REGEX_MATCHES_DOUBLE = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?")
@@ -17,7 +17,7 @@ _REGEX_MATCHES_DOUBLE = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
     if s in ["INF", "-INF", "NaN"]:
         return True
-    if _REGEX_MATCHES_DOUBLE.fullmatch(s.strip()) is None:
+    if _REGEX_MATCHES_DOUBLE.fullmatch(s.strip(" \t\r\n")) is None:
         return False
     v = float(s)
     return v >= min and v <= max
@@ -35,7 +35,7 @@ _REGEX_MATCHES_INTEGER = re.compile(r"([+-]?)0*([0-9]+)")
 
 
 def _is_bounded_integer(s: str, min: int, max: int) -> bool:
-    match = _REGEX_MATCHES_INTEGER.fullmatch(s.strip())
+    match = _REGEX_MATCHES_INTEGER.fullmatch(s.strip(" \t\r\n"))
     if match is None:
         return False
     sign, digits = match.groups()
-- 
2.43.0

