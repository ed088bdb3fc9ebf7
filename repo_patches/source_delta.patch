From 76cd488a88e29140a874d8350f56382486480b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:49 +0000
Subject: [PATCH 01/20] fix: report constraint violations of operation
 variables and shells instead of crashing

---
 aas_test_engines/test_cases/v3_0/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index d405662..9004ab9 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1005,7 +1005,7 @@ class OperationVariable:
         SubmodelElementList shall be specified.
         """
         if self.value.id_short is None:
-            raise CheckConstraintException(f"Constraint AASd-117 is violated: idShort missing @ {self.id_short_path}")
+            raise CheckConstraintException("Constraint AASd-117 is violated: idShort of operation variable missing")
 
 
 @dataclass
@@ -1249,7 +1249,7 @@ class AssetAdministrationShell(Identifiable, HasDataSpecification):
     def check_derived_from(self):
         if self.derived_from and self.derived_from.type != ReferenceType.ModelReference:
             raise CheckConstraintException(
-                f"Constraint violated: derivedFrom must be a model reference @ {self.id_short_path}"
+                f"Constraint violated: derivedFrom must be a model reference @ {self.id}"
             )
 
     def check_submodels(self):
@@ -1257,7 +1257,7 @@ class AssetAdministrationShell(Identifiable, HasDataSpecification):
             for i in self.submodels:
                 if i.type != ReferenceType.ModelReference:
                     raise CheckConstraintException(
-                        f"Constraint violated: submodels must contain only model references @ {self.id_short_path}"
+                        f"Constraint violated: submodels must contain only model references @ {self.id}"
                     )
 
 
-- 
2.43.0


From 53ea449938fb30d2fe16ef3edb9674765c444f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:49 +0000
Subject: [PATCH 02/20] fix: check AASd-116 case-insensitively

---
 aas_test_engines/test_cases/v3_0/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 9004ab9..209af56 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -782,7 +782,7 @@ class AssetInformation:
         if self.specific_asset_ids is None:
             return
         for idx, specific_asset_id in enumerate(self.specific_asset_ids):
-            if specific_asset_id.name.raw_value == "globalAssetId":
+            if specific_asset_id.name.raw_value.lower() == "globalassetid":
                 raise CheckConstraintException(
                     f"Constraint AASd-116 violated: specific asset id {idx} must not have name 'globalAssetId'"
                 )
-- 
2.43.0


From 88227d8caf381dfb55a4c96bcf0edcdb207fa85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:49 +0000
Subject: [PATCH 03/20] fix: compare IEC 61360 data types by their literal in
 AASc-3a-004 to 006

---
 aas_test_engines/test_cases/v3_0/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 209af56..6b84a11 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1337,7 +1337,8 @@ class ConceptDescription(Identifiable, HasDataSpecification):
             return
         for idx, ds in enumerate(self.embedded_data_specifications):
             if isinstance(ds.data_specification_content, DataSpecificationIec61360):
-                if ds.data_specification_content.data_type not in types:
+                data_type = ds.data_specification_content.data_type
+                if (data_type.value if data_type else None) not in types:
                     raise CheckConstraintException(
                         f"Constraint {constraint} violated: embeddedDataSpecifications[{idx}].dataType is invalid"
                     )
-- 
2.43.0


From b8bf5e7e22f9777f552ebeb471982e3c3411661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 04/20] fix: restrict numeric values to the XSD lexical space

---
 aas_test_engines/data_types.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6785f9b..3d8081b 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -1,4 +1,3 @@
-from decimal import Decimal, DecimalException
 from typing import Pattern, Dict, Mapping
 import re
 import base64
@@ -6,16 +5,14 @@ from enum import Enum
 
 
 def is_decimal(s: str) -> bool:
-    try:
-        Decimal(s)
-        return True
-    except DecimalException:
-        return False
+    return re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", s) is not None
 
 
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
     if s in ["INF", "-INF", "NaN"]:
         return True
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", s) is None:
+        return False
     try:
         v = float(s)
         return v > min and v < max
@@ -32,6 +29,8 @@ def is_double(s: str) -> bool:
 
 
 def _is_bounded_integer(s: int, min: int, max: int) -> bool:
+    if re.fullmatch(r"[+-]?[0-9]+", s) is None:
+        return False
     try:
         v = int(s)
         return v >= min and v <= max
-- 
2.43.0


From f3d55cc2942488f5e47389b3b7ea90ef55791b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 05/20] fix: restrict hexBinary and base64Binary to the XSD
 lexical space

---
 aas_test_engines/data_types.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 3d8081b..2ceb3ba 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -39,11 +39,7 @@ def _is_bounded_integer(s: int, min: int, max: int) -> bool:
 
 
 def is_hex_binary(s: str) -> bool:
-    try:
-        bytes.fromhex(s)
-        return True
-    except (KeyError, ValueError):
-        return False
+    return re.fullmatch(r"([0-9a-fA-F]{2})*", s) is not None
 
 
 def _is_leap_year(year: int) -> bool:
@@ -269,11 +265,9 @@ def is_any_uri(s: str) -> bool:
 
 
 def is_base64_binary(s: str) -> bool:
-    try:
-        base64.b64decode(s)
-        return True
-    except ValueError:
-        return False
+    char = "[A-Za-z0-9+/]"
+    final = f"{char} ?{char} ?{char} ?{char}|{char} ?{char} ?[AEIMQUYcgkosw048] ?=|{char} ?[AQgw] ?= ?="
+    return re.fullmatch(f"((({char} ?){{4}})*({final}))?", s) is not None
 
 
 def _construct_matches_bcp_47() -> Pattern[str]:
-- 
2.43.0


From 7c395fdb80f8c1848c7a1b8333b15b5cba97e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 06/20] fix: do not accept a trailing line break in dates, URIs
 and language tags

---
 aas_test_engines/data_types.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 2ceb3ba..0b334e7 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -91,7 +91,7 @@ _DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
 def is_xs_date(value: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE.match(value) is None:
+    if _REGEX_MATCHES_XS_DATE.fullmatch(value) is None:
         return False
 
     match = _DATE_PREFIX_RE.match(value)
@@ -139,7 +139,7 @@ _REGEX_MATCHES_XS_DATE_TIME = _construct_matches_xs_date_time()
 
 
 def is_xs_date_time(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -166,7 +166,7 @@ _REGEX_MATCHES_XS_DATE_TIME_UTC = _construct_matches_xs_date_time_utc()
 
 
 def is_xs_date_time_utc(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME_UTC.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME_UTC.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -248,7 +248,7 @@ _REGEX_MATCHES_XS_G_MONTH_DAY = _construct_matches_xs_g_month_day()
 
 
 def is_xs_g_month_day(s: str) -> bool:
-    if _REGEX_MATCHES_XS_G_MONTH_DAY.match(s) is None:
+    if _REGEX_MATCHES_XS_G_MONTH_DAY.fullmatch(s) is None:
         return False
     month = int(s[2:4])
     day = int(s[5:7])
@@ -261,7 +261,7 @@ _REGEX_MATCHES_XS_ANY_URI = _construct_matches_xs_any_uri()
 
 
 def is_any_uri(s: str) -> bool:
-    return _REGEX_MATCHES_XS_ANY_URI.match(s) is not None
+    return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None
 
 
 def is_base64_binary(s: str) -> bool:
@@ -294,7 +294,7 @@ _REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()
 
 
 def is_bcp_lang_string(s: str) -> bool:
-    return _REGEX_MATCHES_BCP_47.match(s) is not None
+    return _REGEX_MATCHES_BCP_47.fullmatch(s) is not None
 
 
 def _construct_matches_version_type() -> Pattern[str]:
@@ -306,14 +306,14 @@ _REGEX_MATCHES_VERSION_TYPE = _construct_matches_version_type()
 
 
 def is_version_string(text: str) -> bool:
-    return _REGEX_MATCHES_VERSION_TYPE.match(text) is not None
+    return _REGEX_MATCHES_VERSION_TYPE.fullmatch(text) is not None
 
 
 _REGEX_IS_BCP_47_FOR_ENGLISH = re.compile("^(en|EN)(-.*)?$")
 
 
 def is_bcp_47_for_english(text: str) -> bool:
-    return _REGEX_IS_BCP_47_FOR_ENGLISH.match(text) is not None
+    return _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text) is not None
 
 
 class DataTypeDefXsd(Enum):
-- 
2.43.0


From 4b41d8d9d665853d91ef34a3ff4611fa00c069ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 07/20] fix: accept all abbreviated IPv6 addresses in URIs

---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 0b334e7..cad0904 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -207,7 +207,7 @@ def _construct_matches_xs_any_uri() -> Pattern[str]:
     dec_octet = "([0-9]|[1-9][0-9]|1[0-9]{2}|2[0-4][0-9]|25[0-5])"
     ipv4address = f"{dec_octet}\\.{dec_octet}\\.{dec_octet}\\.{dec_octet}"
     ls32 = f"({h16}:{h16}|{ipv4address})"
-    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{3}}{h16})?::{h16}:{ls32}|(({h16}:){{4}}{h16})?::{ls32}|(({h16}:){{5}}{h16})?::{h16}|(({h16}:){{6}}{h16})?::)"
+    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{0,2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{0,3}}{h16})?::{h16}:{ls32}|(({h16}:){{0,4}}{h16})?::{ls32}|(({h16}:){{0,5}}{h16})?::{h16}|(({h16}:){{0,6}}{h16})?::)"
     unreserved = "[a-zA-Z0-9\\-._~]"
     ipvfuture = f"[vV][0-9A-Fa-f]+\\.({unreserved}|{sub_delims}|:)+"
     ip_literal = f"\\[({ipv6address}|{ipvfuture})\\]"
-- 
2.43.0


From 0e848a0f7f040b807533d135a9cbbc52e96cf959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 08/20] fix: treat grandfathered language tags
 case-insensitively

---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index cad0904..992ae1e 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -287,7 +287,7 @@ def _construct_matches_bcp_47() -> Pattern[str]:
     language_tag = f"({langtag}|{privateuse}|{grandfathered})"
     pattern = f"^{language_tag}$"
 
-    return re.compile(pattern)
+    return re.compile(pattern, re.IGNORECASE | re.ASCII)
 
 
 _REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()
-- 
2.43.0


From 93e0d82401ee3e94bf5673dc7c08c876f3d7ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:34 +0000
Subject: [PATCH 09/20] Revert "fix: compare IEC 61360 data types by their
 literal in AASc-3a-004 to 006"

This reverts commit 88227d8caf381dfb55a4c96bcf0edcdb207fa85c.
---
 aas_test_engines/test_cases/v3_0/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 6b84a11..209af56 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1337,8 +1337,7 @@ class ConceptDescription(Identifiable, HasDataSpecification):
             return
         for idx, ds in enumerate(self.embedded_data_specifications):
             if isinstance(ds.data_specification_content, DataSpecificationIec61360):
-                data_type = ds.data_specification_content.data_type
-                if (data_type.value if data_type else None) not in types:
+                if ds.data_specification_content.data_type not in types:
                     raise CheckConstraintException(
                         f"Constraint {constraint} violated: embeddedDataSpecifications[{idx}].dataType is invalid"
                     )
-- 
2.43.0


From 9bce933e94536295452912d07566c33a7844a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:34 +0000
Subject: [PATCH 10/20] Revert "fix: check AASd-116 case-insensitively"

This reverts commit 53ea449938fb30d2fe16ef3edb9674765c444f7f.
---
 aas_test_engines/test_cases/v3_0/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 209af56..9004ab9 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -782,7 +782,7 @@ class AssetInformation:
         if self.specific_asset_ids is None:
             return
         for idx, specific_asset_id in enumerate(self.specific_asset_ids):
-            if specific_asset_id.name.raw_value.lower() == "globalassetid":
+            if specific_asset_id.name.raw_value == "globalAssetId":
                 raise CheckConstraintException(
                     f"Constraint AASd-116 violated: specific asset id {idx} must not have name 'globalAssetId'"
                 )
-- 
2.43.0


From 2703889836fea1313bda2e1dda55c173225ca9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:34 +0000
Subject: [PATCH 11/20] Revert "fix: report constraint violations of operation
 variables and shells instead of crashing"

This reverts commit 76cd488a88e29140a874d8350f56382486480b9d.
---
 aas_test_engines/test_cases/v3_0/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 9004ab9..d405662 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1005,7 +1005,7 @@ class OperationVariable:
         SubmodelElementList shall be specified.
         """
         if self.value.id_short is None:
-            raise CheckConstraintException("Constraint AASd-117 is violated: idShort of operation variable missing")
+            raise CheckConstraintException(f"Constraint AASd-117 is violated: idShort missing @ {self.id_short_path}")
 
 
 @dataclass
@@ -1249,7 +1249,7 @@ class AssetAdministrationShell(Identifiable, HasDataSpecification):
     def check_derived_from(self):
         if self.derived_from and self.derived_from.type != ReferenceType.ModelReference:
             raise CheckConstraintException(
-                f"Constraint violated: derivedFrom must be a model reference @ {self.id}"
+                f"Constraint violated: derivedFrom must be a model reference @ {self.id_short_path}"
             )
 
     def check_submodels(self):
@@ -1257,7 +1257,7 @@ class AssetAdministrationShell(Identifiable, HasDataSpecification):
             for i in self.submodels:
                 if i.type != ReferenceType.ModelReference:
                     raise CheckConstraintException(
-                        f"Constraint violated: submodels must contain only model references @ {self.id}"
+                        f"Constraint violated: submodels must contain only model references @ {self.id_short_path}"
                     )
 
 
-- 
2.43.0


From cad81f00115aef4eef895d60e6482f9f97677220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:22 +0000
Subject: [PATCH 12/20] fix: send the additional headers of the HTTP client

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 1a18b1e..572e7dd 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -70,6 +70,6 @@ class HttpClient:
             url=host + url,
             method=request.method,
             data=body,
-            headers=request.headers,
+            headers={**self.additional_headers, **request.headers},
             verify=self.verify,
         )
-- 
2.43.0


From 42fb454536bdff5e5a0ef865f75ddba3d354f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:22 +0000
Subject: [PATCH 13/20] fix: keep the path prefixes of the parent client when
 descending

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 572e7dd..7140780 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -46,7 +46,7 @@ class HttpClient:
 
     def descend(self, prefix: str):
         result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
-        result.prefixes.append(prefix)
+        result.prefixes = self.prefixes + [prefix]
         return result
 
     def send(self, request: Request) -> Response:
-- 
2.43.0


From 9b80091d99343ca5bbbda4fbabd1e737408f7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:05 +0000
Subject: [PATCH 14/20] fix: report malformed XML in content types and
 relationships of a package

---
 aas_test_engines/opc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index f618451..93a3bde 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -75,6 +75,8 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
                 )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
+    except ElementTree.ParseError as e:
+        result.append(AasTestResult(f"Invalid XML in {content_types_xml}: {e}", Level.ERROR))
 
     return result
 
@@ -93,6 +95,8 @@ def _scan_relationships(
     except KeyError:
         # file does not exist
         return None
+    except ElementTree.ParseError as e:
+        return AasTestResult(f"Invalid XML in {dir}_rels/{file}.rels: {e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
         return AasTestResult(
-- 
2.43.0


From d3a4fcc50224990cdde6d4fc323fd8bfdd2c2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:05 +0000
Subject: [PATCH 15/20] fix: scan the relationships of parts in the root folder
 of a package

---
 aas_test_engines/opc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 93a3bde..587e7b1 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -104,7 +104,7 @@ def _scan_relationships(
             Level.ERROR,
         )
 
-    if dir:
+    if dir or file:
         result = AasTestResult(f"Checking relationships of {dir}{file}")
     else:
         result = AasTestResult(f"Checking root relationship")
@@ -135,7 +135,7 @@ def _scan_relationships(
             target = dir + target
         target = normpath(target)
 
-        sub_dir, file = splitpath(target)
+        sub_dir, sub_file = splitpath(target)
         sub_rel = Relationship(type, target)
         result.append(AasTestResult(f"Relationship {sub_rel.target} is of type {sub_rel.type}", Level.INFO))
         parent_rel.sub_rels.append(sub_rel)
@@ -146,7 +146,8 @@ def _scan_relationships(
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
-        r = _scan_relationships(zipfile, sub_rel, sub_dir + "/", file, visited_targets, deprecated_types)
+        sub_dir = sub_dir + "/" if sub_dir else ""
+        r = _scan_relationships(zipfile, sub_rel, sub_dir, sub_file, visited_targets, deprecated_types)
         if r:
             result.append(r)
 
-- 
2.43.0


From b0a62bda73267195d943e0f040124072e7802a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:33 +0000
Subject: [PATCH 16/20] fix: report undecodable JSON and XML documents instead
 of crashing

---
 aas_test_engines/file.py | 6 ++++--
 aas_test_engines/opc.py  | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d1ad9c6..2ce7e87 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -31,7 +31,8 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = json.load(file)
-    except json.decoder.JSONDecodeError as e:
+    except ValueError as e:
+        # not only JSONDecodeError but also UnicodeDecodeError
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
 
@@ -46,7 +47,8 @@ def check_xml_data(
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = ElementTree.fromstring(file.read())
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        # unknown or unsupported encodings are reported as LookupError and ValueError
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
     return check_xml_data(data, version)
 
diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 587e7b1..17d2611 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -75,7 +75,7 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
                 )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
         result.append(AasTestResult(f"Invalid XML in {content_types_xml}: {e}", Level.ERROR))
 
     return result
@@ -95,7 +95,7 @@ def _scan_relationships(
     except KeyError:
         # file does not exist
         return None
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
         return AasTestResult(f"Invalid XML in {dir}_rels/{file}.rels: {e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
-- 
2.43.0


From 158b7548150fb568f4990fb21f3bd2e75ea16e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:33 +0000
Subject: [PATCH 17/20] fix: check XML files against the requested model type

---
 aas_test_engines/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 2ce7e87..ffbd0a5 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -50,7 +50,7 @@ def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: st
     except (ElementTree.ParseError, LookupError, ValueError) as e:
         # unknown or unsupported encodings are reported as LookupError and ValueError
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
-    return check_xml_data(data, version)
+    return check_xml_data(data, version, model_type)
 
 
 TYPE_AASX_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
-- 
2.43.0


From b594d8cd6d460edb5cf8b93982d7569e8954655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:33 +0000
Subject: [PATCH 18/20] fix: report damaged members of an AASX package instead
 of crashing

---
 aas_test_engines/file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index ffbd0a5..92a0828 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -6,6 +6,7 @@ from .opc import Relationship, read_opc
 
 from xml.etree import ElementTree
 import zipfile
+import zlib
 
 from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj
 from aas_test_engines.test_cases.v3_0.submodel_templates import supported_templates
@@ -112,7 +113,11 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-    except zipfile.BadZipFile as e:
+        bad_file = zip.testzip()
+    except (zipfile.BadZipFile, zlib.error, RuntimeError, ValueError, EOFError, OSError) as e:
+        # zipfile reports damaged archives by all of these
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
+    if bad_file is not None:
+        return AasTestResult(f"Cannot read: {bad_file} is damaged", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
-- 
2.43.0


From dd80a3936ee478a2015ddc7f22966790af47fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:36 +0000
Subject: [PATCH 19/20] fix: exit after reporting an unknown version on the
 command line

---
 aas_test_engines/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index ddd0e53..3c79c16 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -106,6 +106,7 @@ def run_api_test(argv):
         available_suites = api.supported_versions()[args.version]
     except KeyError:
         sys.stderr.write(f"Unknown version, must be one of {api.supported_versions().keys()}\n")
+        sys.exit(1)
     suites = [i for i in available_suites if args.suite in i]
     if len(suites) == 0:
         sys.stderr.write(f"Unknown suite '{args.suite}', must be one of:\n")
-- 
2.43.0


From c111225cc3d8ea9df29cad8685dfd14c91ce308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:55 +0000
Subject: [PATCH 20/20] fix: accept numbers and years with more than 4300
 digits

---
 aas_test_engines/data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 992ae1e..61c209b 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -1,6 +1,7 @@
 from typing import Pattern, Dict, Mapping
 import re
 import base64
+from decimal import Decimal
 from enum import Enum
 
 
@@ -32,7 +33,8 @@ def _is_bounded_integer(s: int, min: int, max: int) -> bool:
     if re.fullmatch(r"[+-]?[0-9]+", s) is None:
         return False
     try:
-        v = int(s)
+        # int(s) refuses texts with more than 4300 digits
+        v = Decimal(s)
         return v >= min and v <= max
     except ValueError:
         return False
@@ -97,7 +99,8 @@ def is_xs_date(value: str) -> bool:
     match = _DATE_PREFIX_RE.match(value)
     assert match is not None
 
-    year = int(match.group(1))
+    # int(text) itself refuses texts with more than 4300 digits
+    year = int(Decimal(match.group(1)))
     month = int(match.group(2))
     day = int(match.group(3))
 
-- 
2.43.0

