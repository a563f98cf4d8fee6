From 52b1eef982e09e363607311894ac912c1f0b49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:40 +0000
Subject: [PATCH 01/19] fix: recognise every two-digit percent escape in URI
 components

A serial starting with an escape such as %2F was fed whole to int(.., 16).
Valid URIs were rejected or raised ValueError, and lone '%2' was accepted.
---
 epcpy/utils/common.py | 2 +-
 epcpy/utils/regex.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..d5f53e6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -506,7 +506,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..8b415cc 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9]\d*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "\d+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
-- 
2.43.0


From 22bea1729505b0001eed5ab1ecc894603e11ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:42 +0000
Subject: [PATCH 02/19] fix: unescape every accepted percent escape, not only
 the canonical spellings

%2f or %41 in a URI was encoded in the tag as / or A, but kept verbatim in
the GS1 element string and key, so one object denoted two identities.
---
 epcpy/utils/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d5f53e6..85466b8 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -37,15 +37,7 @@ def replace_uri_escapes(uri: str) -> str:
     Returns:
         str: Escaped URI string
     """
-    return (
-        uri.replace("%22", '"')
-        .replace("%26", "&")
-        .replace("%2F", "/")
-        .replace("%3C", "<")
-        .replace("%3E", ">")
-        .replace("%3F", "?")
-        .replace("%25", "%")
-    )
+    return re.sub("%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), uri)
 
 
 def revert_uri_escapes(uri: str) -> str:
-- 
2.43.0


From b7ef43820873dbf391edc15417e710c2eddf0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:44 +0000
Subject: [PATCH 03/19] fix: accept only ASCII digits in numeric components

\d also matches other Unicode digits, so non-ASCII URIs and element strings
were accepted and re-emitted in GS1 keys and element strings.
---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 8b415cc..36bba47 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From 3ce3c61e83efbb63d48f5acff44b75ea860e6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:46 +0000
Subject: [PATCH 04/19] fix: keep the part of a GIAI asset reference after a
 colon

Everything from the first colon on was dropped from the key and the tag.
---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From 7841902c4b1c6b197b9eb5958784465bf5c1dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:48 +0000
Subject: [PATCH 05/19] fix: count unescaped characters when limiting GIAI,
 GRAI, GDTI and CPI lengths

An escape is one character of the identifier, not three. Valid identifiers
were rejected, including ones produced by from_gs1_element_string.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..baab3e0 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f927ea9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..a40f18c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..3622695 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From 301ccbc7c51a5857854fa61178c594a8b0863e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:11 +0000
Subject: [PATCH 06/19] fix: parse element strings whose serial contains
 parentheses

A serial such as a(bc)d was split once more, so unpacking raised ValueError.
Only the two application identifiers separate fields.
---
 epcpy/epc_schemes/lgtin.py | 2 +-
 epcpy/epc_schemes/sgln.py  | 2 +-
 epcpy/epc_schemes/sgtin.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..a7ca1fb 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,7 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, 2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..4f7a077 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,7 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string, 2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..3447c51 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,7 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, 2)
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From e71271af8fc66ddc240a229f496b72b93baa745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:13 +0000
Subject: [PATCH 07/19] fix: refuse to encode values the coding scheme cannot
 represent

binary(), hex() and base64() skipped the checks of tag_uri(). Serial 007
was written as 7, too large serials overran their field, and letters raised
ValueError.
---
 epcpy/epc_schemes/cpi.py   | 5 +++++
 epcpy/epc_schemes/gdti.py  | 5 +++++
 epcpy/epc_schemes/giai.py  | 5 +++++
 epcpy/epc_schemes/grai.py  | 5 +++++
 epcpy/epc_schemes/itip.py  | 5 +++++
 epcpy/epc_schemes/sgln.py  | 5 +++++
 epcpy/epc_schemes/sgtin.py | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index baab3e0..ade65d1 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -304,6 +304,11 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f927ea9..4d2fbec 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,11 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index a40f18c..c3f70bd 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,11 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 3622695..9b5a642 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,11 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..1cf8ea1 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -244,6 +244,11 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index 4f7a077..5deb39c 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -243,6 +243,11 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 3447c51..87bacf4 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -307,6 +307,11 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From ee33806f8f5b6def8ed4d61b547962737fee39f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:15 +0000
Subject: [PATCH 08/19] fix: require two digit piece and total in ITIP URIs

Only the total length was checked, so digits could move between components
and end up in the wrong place of the element string.
---
 epcpy/epc_schemes/itip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 1cf8ea1..e80c516 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -148,7 +148,9 @@ class ITIP(GS1Element, TagEncodable):
         verify_gs3a3_component(self._serial)
 
         if (
-            len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            len(f"{self._company_pref}{self._item_ref}") != 13
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From 341dcbc4b5446371869fb33dd437f44a34fea270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:18 +0000
Subject: [PATCH 09/19] fix: encode the largest value of a fixed width integer

ITIP piece or total 99 was refused, though decoding accepts it.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 85466b8..be82ab3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -407,7 +407,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) > (pow(10, int(bit_count * log(2) / log(10))) - 1):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From e6624a2f63288aaab60130bfe6202c815c1cce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:20 +0000
Subject: [PATCH 10/19] fix: check the company prefix length of UPUI

A 13 digit company prefix without item reference was accepted and raised
IndexError when asked for its element string.
---
 epcpy/epc_schemes/upui.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..840272b 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,6 +50,11 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
+        if not (6 <= len(self._company_pref) <= 12):
+            raise ConvertException(
+                message=f"Invalid company prefix length {len(self._company_pref)}"
+            )
+
         if len(f"{self._company_pref}{self._item_ref}") != 13:
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
-- 
2.43.0


From 94f38610410bedfcbf101a26b4ae137f52325d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:22 +0000
Subject: [PATCH 11/19] fix: reject over-long numbers in GID and USDOD before
 converting them

int() raises ValueError for more than 4300 digits.
---
 epcpy/epc_schemes/gid.py   | 10 ++++++----
 epcpy/epc_schemes/usdod.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..02a9216 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -49,14 +49,16 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if len(self._manager) > 9 or int(self._manager) >= pow(2, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if len(self._object) > 8 or int(self._object) >= pow(2, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..a3aabb6 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -70,8 +70,10 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
-- 
2.43.0


From e9e5258adb6da9c9b7b005aa1a188c55868dc82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 12/19] fix: report malformed tag data as ConvertException

Unknown headers raised KeyError. Text that is not binary, hexadecimal or
base64 raised ValueError.
---
 epcpy/utils/common.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index be82ab3..5a7ff80 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -82,7 +82,10 @@ def binary_to_int(binary: str) -> int:
     Returns:
         int: Integer value of binary string
     """
-    return int(binary, 2)
+    try:
+        return int(binary, 2)
+    except ValueError:
+        raise ConvertException(message=f"Invalid binary string {binary}")
 
 
 def str_to_binary(string: str, num_bits: int) -> str:
@@ -108,7 +111,10 @@ def base64_to_hex(base64_string: str) -> str:
         str: Hexadecimal representation
     """
     # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -132,7 +138,10 @@ def hex_to_binary(hex_string: str) -> str:
     Returns:
         str: Binary string
     """
-    return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
+    try:
+        return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
+    except ValueError:
+        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
 
 
 def binary_to_hex(binary_string: str) -> str:
@@ -552,9 +561,12 @@ def parse_header_and_truncate_binary(
     """
     header = binary_string[:8]
 
+    if not re.fullmatch("[01]*", binary_string):
+        raise ConvertException(message=f"Invalid binary string {binary_string}")
+
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From 452c95ee7410e654b80b5cc0314371cbed00b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:28 +0000
Subject: [PATCH 13/19] fix: report URIs without scheme as ConvertException

The generic parsers raised IndexError.
---
 epcpy/utils/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..bb089fe 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,7 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    identifier = "".join(epc_pure_identity_uri.split(":")[3:4])
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +317,7 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    identifier = "".join(epc_tag_uri.split(":")[3:4]).split("-")[0]
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From 082909284d620f42831701ba80f43e30220c5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:30 +0000
Subject: [PATCH 14/19] fix: reject seven bit strings with characters after
 their end

All-zero segments were dropped wherever they occurred, so different tags
were decoded to the same EPC.
---
 epcpy/utils/common.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 5a7ff80..847a334 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -260,12 +260,23 @@ def decode_string(binary: str) -> str:
 
     Returns:
         str: Decoded string
+
+    Raises:
+        ConvertException: Character after the end of the string
     """
+    segments = re.findall("." * 7, binary)
+
+    while segments and segments[-1] == "0000000":
+        segments.pop()
+
+    if "0000000" in segments:
+        raise ConvertException(message="Character after end of string")
+
     return "".join(
         list(
             map(
                 decode_binary_char,
-                re.findall("." * 7, binary),
+                segments,
             )
         )
     )
-- 
2.43.0


From 4acc14817850b569e9eb9b287a7877ea0a65a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:32 +0000
Subject: [PATCH 15/19] fix: reject CAGE codes with embedded padding when
 decoding

Spaces or terminators inside the code were dropped, so different tags were
decoded to the same EPC.
---
 epcpy/utils/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 847a334..6557d6a 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -463,7 +463,7 @@ def decode_cage_code(binary: str) -> str:
     """
     return "".join(
         [chr(int(g, 2)) if g != "" else "" for g in re.split("([0-1]{8})", binary)]
-    ).replace(" ", "")
+    ).lstrip(" ")
 
 
 def encode_cage_code(chars: str) -> str:
@@ -490,6 +490,9 @@ def decode_cage_code_six_bits(binary: str) -> str:
     if binary.startswith("100000"):
         binary = binary[6:]
 
+    if "000000" in re.findall("[0-1]{6}", binary):
+        raise ConvertException(message="CAGE code contains a terminator")
+
     return decode_string_six_bits(binary, 6)
 
 
-- 
2.43.0


From 2813b3715f0b75c8be97cca65c01d6c68c515d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:34 +0000
Subject: [PATCH 16/19] fix: limit the number of digits of decoded CPI-96
 references

References with more digits than the partition allows were accepted, giving
an EPC that cannot be encoded again.
---
 epcpy/utils/common.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 6557d6a..d8bb2a8 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -363,16 +363,15 @@ def decode_partition_table(
     else:
         D = str(binary_to_int(D_bin)) if partition["K"] != 0 else ""
 
-    compare_D = not (
-        unpadded_partition or string_partition or six_bit_variable_partition
-    )
+    compare_D = not (string_partition or six_bit_variable_partition)
+    pad_D = compare_D and not unpadded_partition
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
     if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
-    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
+    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if pad_D else 0}}"
 
 
 def encode_numeric_string(string: str, bit_count: int) -> str:
-- 
2.43.0


From 5040785139fa5ba19afbb852c40eb1e0cd349017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:37 +0000
Subject: [PATCH 17/19] fix: reject CPI-var data without a complete serial

A missing serial was decoded as 0 and a truncated one as a smaller number.
---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index ade65d1..71db44d 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -369,7 +369,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            if len(serial_binary) < 40:
+                raise ConvertException(message="Invalid binary for CPI, missing serial")
+
+            serial_binary = serial_binary[:40]
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
-- 
2.43.0


From 66689274d0b4fe617794054c034cbc76df21d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:39 +0000
Subject: [PATCH 18/19] fix: find ADI terminators on character boundaries

Six zero bits spanning two characters, as in PA or 0A, were taken for a
terminator, so such part numbers and serials did not survive a round trip.
---
 epcpy/epc_schemes/adi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..1cec8e6 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,21 +200,22 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        chars = re.findall("[0-1]{6}", truncated_binary[50:])
+
+        if chars.count("000000") < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_end = chars.index("000000")
+        part_number_binary = "".join(chars[:part_number_end])
+        serial_binary = "".join(chars[part_number_end + 1 :])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
         part_number_string = decode_string_six_bits(part_number_binary, 32)
 
-        serial_string = decode_string_six_bits(serial_binary_trimmed, 30)
+        serial_string = decode_string_six_bits(serial_binary, 30)
 
         return cls.from_tag_uri(
             f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_string}.{cage_code_string}.{part_number_string}.{serial_string}"
-- 
2.43.0


From 8dd90e739f5f4325b2493a62f6718bd8a6d5e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:44:40 +0000
Subject: [PATCH 19/19] fix: refuse a percent character in six-bit tag strings

---
 epcpy/utils/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d8bb2a8..e53fced 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -205,6 +205,9 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
     if len(res) > max_chars:
         raise ConvertException(message="Too many characters decoded!")
 
+    if "%" in res:
+        raise ConvertException(message="Invalid character % decoded!")
+
     return res.replace("#", "%23").replace("/", "%2F")
 
 
-- 
2.43.0

