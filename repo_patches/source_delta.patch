From acea900c19822fe78fade2b189c6d946aedbbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 1/6] fix: reject text field length that is not plain decimal
 digits

---
 iso8583/decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..72bb64c 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -518,6 +518,9 @@ def _decode_field(
                 ) from None
 
             try:
+                # int() also accepts signs, spaces, underscores, etc.
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError("non-numeric data")
                 enc_field_len = int(decoded_length)
             except Exception:
                 raise DecodeError(
-- 
2.43.0


From ab0606aa1bdf411915e037e89d2db01672592efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 2/6] fix: reject white space inside of a text bitmap

---
 iso8583/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 72bb64c..e4ecc59 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
+import binascii
 
 __all__ = ["decode", "DecodeError"]
 
@@ -380,7 +381,8 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            # Unlike bytes.fromhex() this does not skip white space
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From 93c6702eb79c8269b905df847532236f66a25705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 3/6] fix: report a field missing from specifications as
 DecodeError/EncodeError, not KeyError

---
 iso8583/decoder.py | 9 +++++++++
 iso8583/encoder.py | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index e4ecc59..0cc99ac 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -156,6 +156,15 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
+        if field not in spec:
+            raise DecodeError(
+                "Field is not defined in specifications",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            )
         idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
 
     if idx != len(s):
diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..7edcb9d 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -157,6 +157,10 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
+        if field_key not in spec:
+            raise EncodeError(
+                "Field is not defined in specifications", doc_dec, doc_enc, field_key
+            )
         s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
 
     return s, doc_enc
-- 
2.43.0


From ee043c453a6c0569bdd8fa9bb248e279a06bba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 4/6] fix: report field keys such as '02' as EncodeError
 instead of KeyError or silent omission

---
 iso8583/encoder.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 7edcb9d..bd9dad2 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -94,7 +94,8 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_type(doc_dec, doc_enc, spec)
 
     try:
-        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
+        field_keys = [k for k in doc_dec.keys() if k.isnumeric()]
+        fields: Set[int] = set([int(k) for k in field_keys])
     except AttributeError:
         raise EncodeError(
             f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
@@ -102,6 +103,11 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             doc_enc,
             "p",
         ) from None
+    except ValueError:
+        # Numeric, but not an integer. E.g. a fraction or a superscript.
+        raise EncodeError(
+            "Dictionary contains non-integer fields", doc_dec, doc_enc, "p"
+        ) from None
 
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
@@ -112,6 +118,17 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             "p",
         )
 
+    # Verify that fields are spelled the same way as in specifications.
+    # E.g. "2" and not "02".
+    misspelled = sorted(set(field_keys).difference([str(i) for i in fields]))
+    if misspelled:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {misspelled}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
+
     # Add tertiary bitmap if any 129-192 fields are present
     tertiary_fields = fields.intersection(range(129, 193))
     if tertiary_fields:
-- 
2.43.0


From 242375b674928baf42f9c29cf6c7d61a858cde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 5/6] fix: report non-string data of a binary field as
 EncodeError

---
 iso8583/encoder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index bd9dad2..1261ef3 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -575,6 +575,14 @@ def _encode_bindary_field(
         else:
             data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
+    except TypeError:
+        # Not a string
+        raise EncodeError(
+            "Failed to encode field, invalid data",
+            doc_dec,
+            doc_enc,
+            field_key,
+        ) from None
     except Exception:
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
-- 
2.43.0


From 1cff9c2c7ab2b703dd59b806b184c8474c413902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 6/6] fix: reject odd number of nibbles in a text field

---
 iso8583/decoder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 0cc99ac..7873410 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -599,6 +599,16 @@ def _decode_field(
                 enc_field_len,
             )
     else:
+        # Text is encoded in whole bytes. It cannot be half a byte short.
+        if len_count == "nibbles" and enc_field_len & 1:
+            raise DecodeError(
+                f"Field data is {byte_field_len * 2} nibbles, expecting {enc_field_len}",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
         doc_dec[field_key] = _decode_text_data(
             s,
             doc_enc[field_key]["data"],
-- 
2.43.0

